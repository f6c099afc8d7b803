"""C32 editing a product's metadata."""
from __future__ import annotations

import random
import warnings

import numpy as np
import pandas as pd

import pdr

from .core import Prop
from .p_label import pv

DEFAULT = object()
IMAGES = ("IMAGE", "B_IMAGE", "RAW_IMAGE")
TABLES = ("TABLE", "B_TABLE", "ENGINEERING_TABLE")
TEXTS = ("A_HEADER", "IMAGE_HEADER")
FILE = 500


def num(n):
    return {"t": "int", "x": str(n)}


def word(x):
    return {"t": "text", "x": x}


def blk(es):
    return {"t": "block", "e": [{"k": k, "v": v} for k, v in es]}


def source(v):
    """a literal as label text"""
    if v["t"] == "seq":
        return "(" + ", ".join(source(x) for x in v["e"]) + ")"
    if v["t"] == "qty":
        return f"{source(v['v'])} <{v['u']}>"
    if v["t"] == "text" and not v["x"].replace("_", "").isalnum():
        return f'"{v["x"]}"'
    return v["x"]


def python(v):
    """a literal as the value pdr holds for it"""
    if v["t"] == "int":
        return int(v["x"])
    if v["t"] == "seq":
        return tuple(python(x) for x in v["e"])
    if v["t"] == "qty":
        return {"value": python(v["v"]), "units": v["u"]}
    if v["t"] == "block":
        from multidict import MultiDict
        return MultiDict([(x["k"], python(x["v"])) for x in v["e"]])
    return v["x"]


def render(es, pad=""):
    out = []
    for x in es:
        if x["v"]["t"] == "block":
            out += [f"{pad}OBJECT = {x['k']}", *render(x["v"]["e"], pad + " "),
                    f"{pad}END_OBJECT = {x['k']}"]
        else:
            out.append(f"{pad}{x['k']} = {source(x['v'])}")
    return out


def apply(es, x):
    """the edit, on the harness's copy of the tree (to choose further ones)"""
    k = x["k"]
    if x["how"] == "del":
        es[:] = [e for e in es if e["k"] != k]
    elif x["how"] == "add" or not any(e["k"] == k for e in es):
        es.append({"k": k, "v": x["v"]})
    else:
        i = [e["k"] for e in es].index(k)
        es[:] = [e for j, e in enumerate(es) if e["k"] != k or j == i]
        es[i] = {"k": k, "v": x["v"]}


class Editing(Prop):
    id = "C32"
    module = "Trace_Edits"
    chunk_min = 60
    assumptions = (
        "detached PDS3 labels; edits of values, positions and keywords of "
        "objects the label already describes, in files already found",)
    level_note = (
        "TLC explores every interleaving of edits, announcements, lookups and "
        "loads up to the bound, in a model that remembers answers as an "
        "implementation may; histories and longer random ones are replayed "
        "on products of images, tables and headers")

    def __init__(self, *a):
        super().__init__(*a)
        e, o = (2, 4) if self.quick else (2, 5)
        self.models = [("MC_Edits", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS\n"
            f" MaxEdits = {e}\n MaxOps = {o}\n"
            "INVARIANTS LookupOK LoadOK Emit\nPROPERTIES HeldOK OthersOK\n"
        ), "edits", {"workers": 1})]

    def from_model(self, scns):
        scns = sorted(scns, key=str)
        n = 700 if self.quick else 8000
        if len(scns) > n:
            scns = self.rng.sample(scns, n)
        return [dict(hist=s["hist"], seed=self.rng.randrange(1 << 30))
                for s in scns]

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(350 if self.quick else 6000):
            out.append(dict(hist=[], n=rng.randrange(5, 30),
                            seed=rng.randrange(1 << 30)))
        return out

    # ------------------------------------------------------------- products
    def block(self, rng, kind):
        if kind == "image":
            w = rng.choice((8, 16))
            es = [("LINES", num(rng.randrange(1, 5))),
                  ("LINE_SAMPLES", num(rng.randrange(1, 5))),
                  ("SAMPLE_BITS", num(w)),
                  ("SAMPLE_TYPE", word(rng.choice((
                      "MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER"))))]
            if rng.random() < .4:
                es += [("BANDS", num(rng.randrange(1, 4))),
                       ("BAND_STORAGE_TYPE", word(rng.choice(STORAGE)))]
            if rng.random() < .3:
                es += [("SCALING_FACTOR", num(rng.randrange(2, 5))),
                       ("OFFSET", num(rng.randrange(1, 9)))]
            return es
        if kind == "text":
            return [("BYTES", num(rng.randrange(1, 30))),
                    ("HEADER_TYPE", word("TEXT"))]
        cols = [("COLUMN", blk([("NAME", word(n)), ("DATA_TYPE", word(t)),
                                ("START_BYTE", num(a)), ("BYTES", num(w))]))
                for n, t, a, w in (
                    ("FIRST", rng.choice(TYPES), 1, rng.choice((1, 2))),
                    ("SECOND", rng.choice(TYPES), rng.choice((3, 4)),
                     rng.choice((1, 2))))[:rng.choice((1, 2, 2))]]
        return [("INTERCHANGE_FORMAT", word("BINARY")),
                ("ROWS", num(rng.randrange(1, 6))),
                ("ROW_BYTES", num(rng.choice((5, 6, 8)))),
                ("COLUMNS", num(len(cols))), *cols]

    def pointer(self, rng):
        at = num(rng.randrange(1, 12))
        if rng.random() < .4:
            at = {"t": "qty", "v": num(rng.randrange(1, 200)), "u": "BYTES"}
        return {"t": "seq", "e": [word("a.img"), at]}

    def build(self, scn, d):
        rng = random.Random(scn["seed"])
        letters = [*range(65, 91), *range(97, 123)]
        data = bytes(rng.choice(letters) for _ in range(FILE))
        kinds = [rng.choice(("image", "image", "table", "text"))
                 for _ in range(2 if scn["hist"] else rng.choice((1, 2, 3)))]
        if scn["hist"] and "text" in kinds:
            kinds = ["image", "table"]
        names = {"image": list(IMAGES), "table": list(TABLES),
                 "text": list(TEXTS)}
        objs = []
        for k in kinds:
            if not names[k]:
                continue
            n = names[k].pop(rng.randrange(len(names[k])))
            objs.append(dict(name=n, kind=k))
        head = [("PDS_VERSION_ID", word("PDS3")),
                ("RECORD_TYPE", word("FIXED_LENGTH")),
                ("RECORD_BYTES", num(rng.choice((4, 8, 10)))),
                ("NOTE_ID", word("ALPHA"))]
        head += [("^" + o["name"], self.pointer(rng)) for o in objs]
        body = [(o["name"], blk(self.block(rng, o["kind"]))) for o in objs]
        if rng.random() < .3:
            body.append(("GEOMETRY", blk([("LINES", num(7)),
                                          ("NOTE_ID", word("BETA"))])))
        tree = blk(head + body)["e"]
        (d / "a.img").write_bytes(data)
        (d / "a.lbl").write_text("\r\n".join(render(tree)) + "\r\nEND\r\n")
        return rng, tree, objs, data

    # ---------------------------------------------------------------- edits
    def edit(self, rng, tree, objs, name=None, how=None):
        """a random edit: (path of positions, {how, k, v})"""
        if name is None and rng.random() < .25 or name == "":
            c = rng.randrange(5)
            if how == "new":
                c = 4
            if c == 0:
                return [], dict(how="set", k="RECORD_BYTES",
                                v=num(rng.choice((4, 6, 8, 10))))
            if c < 3:
                o = rng.choice(objs)
                return [], dict(how="set", k="^" + o["name"],
                                v=self.pointer(rng))
            if c == 3:
                return [], dict(how="set", k="NOTE_ID",
                                v=word(rng.choice(("GAMMA", "DELTA"))))
            return [], dict(how=rng.choice(("set", "add")),
                            k=rng.choice(("EXTRA_ID", "OTHER_ID")),
                            v=rng.choice((num(3), num(4), word("NEW"))))
        o = next((x for x in objs if x["name"] == name), None) or \
            rng.choice(objs)
        i = [e["k"] for e in tree].index(o["name"])
        es = tree[i]["v"]["e"]
        if how == "swap" or how is None and rng.random() < .15:
            # another definition in the place of this one
            if rng.random() < .15 and "GEOMETRY" in [e["k"] for e in tree]:
                return [], dict(how="set", k="GEOMETRY", v=blk(
                    [("NOTE_ID", word("EPSILON"))]))
            return [], dict(how="set", k=o["name"],
                            v=blk(self.block(rng, o["kind"])))
        if how == "new":
            return [i], dict(how="add", k="EXTRA_ID", v=num(rng.randrange(9)))
        if o["kind"] == "text":
            return [i], dict(how="set", k="BYTES", v=num(rng.randrange(1, 40)))
        if o["kind"] == "table":
            at = [j for j, e in enumerate(es) if e["k"] == "COLUMN"]
            c = rng.randrange(6)
            if c == 0:
                return [i], dict(how="set", k="ROWS",
                                 v=num(rng.randrange(1, 9)))
            if c == 1:
                return [i], dict(how="set", k="ROW_BYTES",
                                 v=num(rng.choice((5, 6, 7, 8))))
            j = rng.choice(at)
            if c == 2:
                return [i, j], dict(how="set", k="NAME", v=word(rng.choice((
                    "THIRD", "FOURTH", "FIFTH"))))
            if c == 3:
                return [i, j], dict(how="set", k="DATA_TYPE",
                                    v=word(rng.choice(TYPES)))
            if c == 4:
                return [i, j], dict(how="set", k="BYTES",
                                    v=num(rng.choice((1, 2))))
            return [i, j], dict(how="set", k="START_BYTE", v=num(
                1 if j == at[0] else rng.choice((3, 4))))
        has = {e["k"] for e in es}
        c = rng.randrange(8)
        if how == "del" or c == 0 and "SCALING_FACTOR" in has:
            ks = sorted(has & {"SCALING_FACTOR", "OFFSET", "BANDS"})
            if ks:
                return [i], dict(how="del", k=rng.choice(ks), v=num(0))
        if c in (1, 2):
            return [i], dict(how="set", k="LINES", v=num(rng.randrange(1, 7)))
        if c == 3:
            return [i], dict(how="set", k="LINE_SAMPLES",
                             v=num(rng.randrange(1, 7)))
        if c == 4:
            return [i], dict(how="set", k="SAMPLE_BITS",
                             v=num(rng.choice((8, 16))))
        if c == 5:
            return [i], dict(how="set", k="SAMPLE_TYPE", v=word(rng.choice((
                "MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER"))))
        if c == 6:
            return [i], dict(
                how="set", k=rng.choice(("SCALING_FACTOR", "OFFSET")),
                v=num(rng.randrange(1, 9)))
        if "BAND_STORAGE_TYPE" not in has or rng.random() < .4:
            return [i], dict(how="set", k="BAND_STORAGE_TYPE",
                             v=word(rng.choice(STORAGE)))
        return [i], dict(how="set", k="BANDS", v=num(rng.randrange(1, 4)))

    def plan(self, scn, rng, tree, objs):
        """operations, one after the other (the tree follows)"""
        names = [o["name"] for o in objs]
        if scn["hist"]:
            by = {"A": names[0], "B": names[-1], "R": "RECORD_BYTES", "": ""}
            for op, n, a in scn["hist"]:
                if op == "edit":
                    yield ("edit", *self.edit(
                        rng, tree, objs,
                        by["A"] if a == "swap" else by[n], {"new": "new", "add": "new",
                                                 "del": "del", "swap": "swap"}.get(a)))
                elif op == "get":
                    k = "LINES" if n == "L" else by[n]
                    yield rng.choice(("get", "block") if n == "A" else
                                     ("get",)), k
                elif op == "announce":
                    yield ("announce",)
                else:
                    yield op, by[n]
        for _ in range(scn.get("n", 0)):
            c = rng.random()
            if c < .35:
                yield ("edit", *self.edit(rng, tree, objs))
            elif c < .55:
                yield ("announce",)
            elif c < .7:
                yield rng.choice(("get", "get", "getq")), rng.choice(KEYS + [
                    "^" + rng.choice(names)])
            elif c < .78:
                yield "block", rng.choice(names + ["GEOMETRY", "COLUMN"])
            else:
                op = rng.choice(("item", "item", "reload", "reload", "scaled",
                                 "del"))
                yield op, rng.choice(names)
        yield ("announce",)
        for n in names:
            yield "reload", n
            yield "item", n
        for k in rng.sample(KEYS, 4):
            yield "get", k
        for n in names:
            yield rng.choice(("block", "get")), n

    def value(self, v):
        if isinstance(v, np.ndarray):
            a = np.ma.getdata(v)
            return dict(t="value", kind="image", w=int(a.dtype.itemsize),
                        shape=list(a.shape), data=whole(a.ravel().tolist()))
        if isinstance(v, pd.DataFrame):
            return dict(t="value", kind="table", rows=len(v), cols=[
                dict(name=str(c), data=whole(v.iloc[:, i].tolist()))
                for i, c in enumerate(v.columns)])
        if isinstance(v, str):
            return dict(t="value", kind="text", codes=[ord(c) for c in v])
        return dict(t="value", kind=type(v).__name__)

    def execute(self, scn, d):
        rng, tree, objs, data = self.build(scn, d)
        evs = [dict(op="open", objs=objs, file=list(data), tree=blk(
            [(e["k"], e["v"]) for e in tree])["e"], obs={"t": "none"})]
        import copy
        evs[0]["tree"] = copy.deepcopy(tree)
        try:
            p = pdr.read(str(d / "a.lbl"))
        except Exception as ex:
            evs[0]["obs"] = {"t": "exc", "v": type(ex).__name__}
            return evs
        held = set()
        for op, *a in self.plan(scn, rng, tree, objs):
            ev = dict(op=op, obs={"t": "none"})
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    if op == "edit":
                        path, x = a
                        ev["path"] = [i + 1 for i in path]
                        ev["x"] = copy.deepcopy(x)
                        m, es = p.metadata, tree
                        for i in path:
                            m, es = list(m.values())[i], es[i]["v"]["e"]
                        if x["how"] == "set":
                            m[x["k"]] = python(x["v"])
                        elif x["how"] == "add":
                            m.add(x["k"], python(x["v"]))
                        else:
                            m.popall(x["k"])
                        apply(es, x)
                    elif op == "announce":
                        p.load_metadata_changes()
                    elif op in ("get", "getq"):
                        ev["op"], ev["k"], ev["loud"] = "get", a[0], op == "get"
                        f = p.metaget if op == "get" else p.metaget_
                        if rng.random() < .3:
                            f = p.metadata.metaget if op == "get" \
                                else p.metadata.metaget_
                        r = f(a[0], DEFAULT)
                        ev["isdef"] = r is DEFAULT
                        ev["obs"] = {"t": "none"} if r is DEFAULT else pv(r)
                    elif op == "block":
                        ev["k"], ev["loud"] = a[0], True
                        ev["obs"] = pv(p.metablock(a[0]))
                    elif op == "del":
                        if a[0] not in held:
                            continue
                        ev["n"] = a[0]
                        delattr(p, a[0])
                        held.discard(a[0])
                    elif op == "reload":
                        ev["n"] = a[0]
                        held.add(a[0])
                        p.load(a[0], reload=True)
                    elif op == "scaled":
                        ev["n"] = a[0]
                        if not isinstance(p[a[0]], np.ndarray):
                            ev["op"] = "item"
                            ev["obs"] = self.value(p[a[0]])
                        else:
                            ev["obs"] = self.value(p.get_scaled(a[0]))
                        held.add(a[0])
                    else:
                        ev["n"] = a[0]
                        ev["obs"] = self.value(p[a[0]])
                        held.add(a[0])
                except Exception as ex:
                    ev["obs"] = {"t": "exc", "kind": "exc",
                                 "v": type(ex).__name__}
            if "loud" in ev:
                ev["warned"] = any("More than one" in str(w.message)
                                   for w in ws)
            evs.append(ev)
        a = dict(op="audit", obs={"t": "none"})
        a["held"] = {n: self.value(p[n]) for n in held}
        evs.append(a)
        return evs

    def timeout_events(self, scn):
        return [dict(op="open", objs=[], file=[], tree=[],
                     obs={"t": "timeout"})]

    def nontrivial(self, evs):
        return any(e["op"] == "edit" for e in evs)

    def canary(self, evs, rng):
        c = rng.randrange(3)
        if c == 0:
            hits = [e for e in evs if e["op"] == "get"
                    and e["obs"]["t"] == "int"]
            if hits:
                rng.choice(hits)["obs"]["v"] = "777"
                return evs
        hits = [e for e in evs[-20:] if e["op"] == "item"
                and e["obs"].get("kind") in ("image", "table", "text")]
        if not hits or not any(e["op"] == "announce" for e in evs[-20:]):
            return None
        # (the last look at an object follows an announcement)
        e = hits[-1]
        o = e["obs"]
        if o["kind"] == "image":
            o["data"][-1] += 1
        elif o["kind"] == "table":
            o["cols"][0]["name"] += "X"
        else:
            o["codes"][0] += 1
        return evs


def whole(xs):
    return [int(x) if isinstance(x, (int, float)) and x == int(x) else -1
            for x in xs]


STORAGE = ("BAND_SEQUENTIAL", "LINE_INTERLEAVED", "SAMPLE_INTERLEAVED")
TYPES = ("MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER")
KEYS = ["LINES", "LINE_SAMPLES", "BYTES", "ROWS", "NAME", "RECORD_BYTES",
        "NOTE_ID", "EXTRA_ID", "OTHER_ID", "BANDS", "SCALING_FACTOR", "OFFSET",
        "NO_SUCH_KEY", "START_BYTE", "DATA_TYPE"]
