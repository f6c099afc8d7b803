"""C27 resolution of loader parameters: generated pipelines of recording
functions, and the pipelines of the real loaders on real products."""
from __future__ import annotations

import functools
import inspect
import random
import re

import numpy as np

from . import pds3
from .core import Prop
from .p_files import read

VALUES = {"None": None, "0": 0, "False": False, '""': "", "()": ()}
OPTIONAL = ["Optional[int]", "int | None", "None | str", "Optional[dict]"]
REQUIRED = ["", "", "int", "str | int", "dict[str, int]", "OptionalThing"]


class Boom(Exception):
    pass


class OptionalThing:
    pass


class Recorder:
    """a tracker that keeps what it is told"""
    def __init__(self):
        self.seen = []

    def track(self, func, **metadata):
        self.seen.append((getattr(func, "__name__", str(func)), metadata))

    def set_metadata(self, **_):
        pass

    def dump(self):
        pass

    def clear(self):
        pass


class Default:
    def __repr__(self):
        return "DEFAULT"


DEFAULT = Default()


def token(v):
    for k, x in VALUES.items():
        if type(x) is type(v) and x == v:
            return k
    return v if isinstance(v, str) else getattr(v, "token", "?" + repr(v)[:30])


class Thing:
    def __init__(self, tok):
        self.token = tok


def fn(id_, params, checks=(), value=None, raises="", err=False):
    return dict(id=id_, params=params, checks=list(checks),
                value=id_ if value is None else value, raises=raises,
                special=False, err=err)


def source(f, notes, rng):
    """Python source of a recording function"""
    pos, kwo = [], []
    for p in f["params"]:
        note = notes[p["n"], p["opt"]]
        text = p["n"] + (f": {note}" if note else "")
        if p["dflt"]:
            text += (" = " if note else "=") + "DEFAULT"
        (kwo if rng.random() < .2 else pos).append((p["dflt"], text))
    pos.sort()
    rng.shuffle(kwo)
    args = [t for _, t in pos]
    rest = not f["checks"] and f["kind"] == "fn" and rng.random() < .1
    if kwo or rest:
        args += (["*_"] if rest else ["*"]) + [t for _, t in kwo]
    if rest:
        args.append("**__")
    names = [p["n"] for p in f["params"]]
    got = ", ".join(f"{n!r}: {n}" for n in names)
    return f"def {f['id']}({', '.join(args)}):\n" \
           f"    return _call({f['id']!r}, {{{got}}})\n"


class C27(Prop):
    id = "C27"
    module = "Trace_Query"
    stateful = True
    chunk_min = 150
    assumptions = (
        "functions of a pipeline do not modify each other's values and "
        "declare a parameter they share with their special-case check alike",)
    level_note = (
        "TLC explores every pipeline of up to three queries over three "
        "parameters with one special-case check; these pipelines and larger "
        "seeded ones are run, every call recorded, on the real softquery, "
        "specialize and Loader, and the real loaders' own pipelines on real "
        "products")

    def __init__(self, *a):
        super().__init__(*a)
        n, p = (2, "FALSE") if self.quick else (3, "TRUE")
        self.models = [("MC_Query", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" Orders = {n}\n Pairs = {p}\nINVARIANTS Once InOrder SuppliedKept"
            " OneValue OnlyAccepted SpecialFirst Complete NoGuess Unneeded"
            " Emit\n"), f"o{n}")]

    def from_model(self, scns):
        n = 1500 if self.quick else 20000
        # functions and their checks declare shared parameters alike
        scns = sorted((s for s in scns if self.alike(s)), key=str)
        if len(scns) > n:
            scns = self.rng.sample(scns, n)
        return [dict(c=s, real="", seed=self.rng.randrange(1 << 30))
                for s in scns]

    @staticmethod
    def alike(c):
        for f in [c["target"]] + [q["fn"] for q in c["queries"]]:
            seen = {}
            for p in f["params"] + [p for k in f["checks"]
                                    for p in k["params"]]:
                if seen.setdefault(p["n"], p["opt"]) != p["opt"]:
                    return False
        return True

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(1200 if self.quick else 12000):
            out.append(dict(c=self.program(rng), real="",
                            seed=rng.randrange(1 << 30)))
        for _ in range(160 if self.quick else 1500):
            out.append(dict(c=None, seed=rng.randrange(1 << 30),
                            real=rng.choice(("pds3", "pds3", "fits", "png"))))
        return out

    @staticmethod
    def program(rng):
        names = rng.sample("abcdefgh", rng.randrange(2, 8))
        order = rng.sample(names, rng.randrange(1, len(names) + 1))
        if rng.random() < .85:
            order = order + [n for n in names if n not in order]
        supplied = [dict(n=n, v=rng.choice(["s" + n] * 4 + list(VALUES)))
                    for n in names if rng.random() < .25]
        if rng.random() < .1:
            supplied.append(dict(n="zz", v="extra"))
        sup = {x["n"] for x in supplied}
        loader = rng.random() < .6
        free = ["name", "data", "tracker"] if loader else []

        def params(own, before):
            out = []
            for n in names + free:
                if n == own or rng.random() > (.35 if len(names) < 5 else .25):
                    continue
                r = rng.random()
                late = n not in before
                if r < .3:
                    out.append(dict(n=n, opt=True, dflt=True))
                elif r < .37:
                    out.append(dict(n=n, opt=False, dflt=True))
                elif not late or rng.random() < .06:
                    out.append(dict(n=n, opt=False, dflt=False))
            return out

        def spec(kind, id_, own, before):
            checks, known = [], {}
            ps = params(own, before)
            for p in ps:
                known[p["n"]] = p
            for k in range(rng.choice((0, 0, 0, 1, 1, 2))):
                cp = [dict(known.setdefault(p["n"], p))
                      for p in params(own, before)]
                special = rng.random() < .35
                checks.append(dict(
                    id=f"c{k}{id_}", params=cp, special=special,
                    value=rng.choice([f"v{k}{id_}"] * 4 + list(VALUES)),
                    raises="Boom" if rng.random() < .03 else ""))
            return fn(id_, ps, checks,
                      rng.choice([None] * 5 + list(VALUES)),
                      "Boom" if rng.random() < .03 else "",
                      bool(checks) and rng.random() < .2)

        queries, before = [], set(sup) | set(free)
        for n in order:
            queries.append(dict(name=n, fn=spec("q", "q" + n, n, before)))
            before.add(n)
        return dict(target=spec("t", "t", None, before), queries=queries,
                    supplied=supplied, loader=loader)

    # ---- running
    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        if scn["real"]:
            return self.real(scn["real"], d, rng)
        c = scn["c"]
        c["real"] = False
        loader = c.pop("loader", None)
        if loader is None:
            loader = rng.random() < .5
        return self.toy(c, loader, rng)

    def toy(self, c, loader, rng):
        from pdr.func import call_kwargfiltered, softquery, specialize
        from pdr.loaders.datawrap import Loader

        events, byid = [], {}
        rec, checkrec = Recorder(), Recorder()

        def call(id_, got):
            f = byid[id_]
            args = [dict(n=n, v=token(v)) for n, v in got.items()
                    if v is not DEFAULT]
            events.append(dict(op="call", id=id_, args=args))
            if f["raises"]:
                raise Boom(id_)
            value = VALUES.get(f["value"], f["value"])
            return (f["special"], value) if f["kind"] == "check" else value

        thing, name = Thing("data"), rng.choice(("OBJ", "^OBJ", "IMAGE"))
        supplied = {x["n"]: VALUES.get(x["v"], x["v"]) for x in c["supplied"]}
        tracked = loader or rng.random() < .5
        if loader:
            c["supplied"] = c["supplied"] + [
                dict(n="data", v="data"),
                dict(n="name", v=name.strip("^")),
                dict(n="tracker", v="tracker")]
        elif tracked:
            c["supplied"] = c["supplied"] + [dict(n="tracker", v="tracker")]
        rec.token = "tracker"
        future = rng.random() < .6
        notes = {}
        for n in list("abcdefgh") + ["data", "name", "tracker"]:
            for opt, some in ((True, OPTIONAL), (False, REQUIRED)):
                note = rng.choice(some)
                if "|" in note and not future and rng.random() < .5:
                    note = repr(note)
                notes[n, opt] = note
        space = {"_call": call, "DEFAULT": DEFAULT, "OptionalThing": OptionalThing}

        def define(text):
            head = "from __future__ import annotations\n" if future else ""
            exec(compile(head + text, "pipeline", "exec", dont_inherit=True),
                 space)

        define("from typing import Optional\n")

        def make(f, kind, owner):
            f = dict(f, kind=kind, owner=owner)
            f.setdefault("checks", [])
            byid[f["id"]] = f
            define(source(f, notes, rng))
            return space[f["id"]]

        def build(f):
            g = make(f, "fn", f["id"])
            # the check consulted first is the outermost
            for k in reversed(f["checks"]):
                g = specialize(
                    g, make(k, "check", f["id"]), tracker=checkrec,
                    error=((lambda ex: "error") if f["err"]
                           and k is f["checks"][0] else None))
            return g

        target = build(c["target"])
        queries = {q["name"]: build(q["fn"]) for q in c["queries"]}
        end = dict(op="end", tracked=tracked, history=[], seen=[])
        try:
            if loader:
                load = Loader(target)
                load.queries = queries
                out = load(thing, name, tracker=rec, **supplied)
                assert list(out) == [name], out
                out = out[name]
            else:
                kw = dict(supplied)
                if tracked:
                    kw["tracker"] = rec
                kw = softquery(target, queries, kw)
                out = call_kwargfiltered(target, **kw)
            end["obs"] = dict(kind="ok", value=token(out))
        except Exception as ex:
            end["obs"] = dict(kind="exc", type=type(ex).__name__)
        end["history"] = [n for n, _ in rec.seen if n != "t"]
        end["seen"] = [dict(id=n, special=bool(m.get("is_special")))
                       for n, m in checkrec.seen]
        return [dict(op="case", c=c)] + events + [end]

    # ---- the pipelines of real loaders
    def real(self, kind, d, rng):
        name, fname, kwargs = getattr(self, "make_" + kind)(d, rng)
        data, _ = read(fname)
        from pdr.loaders.dispatch import pointer_to_loader

        load = pointer_to_loader(name, data)
        events, refs, ids, rec = [], [], {}, Recorder()

        def tok(v):
            if id(v) not in ids:
                refs.append(v)
                ids[id(v)] = f"o{len(refs)}"
            return ids[id(v)]

        def listen(f, id_):
            sig = inspect.signature(f)

            @functools.wraps(f)
            def g(**kw):
                e = dict(op="call", id=id_,
                         args=[dict(n=n, v=tok(v)) for n, v in kw.items()])
                events.append(e)
                e["ret"] = dict(raises="", value="", special=False)
                try:
                    out = f(**kw)
                except Exception as ex:
                    e["ret"]["raises"] = type(ex).__name__
                    raise
                e["ret"]["value"] = tok(out)
                return out
            g.__signature__ = sig
            g.__name__ = id_
            return g

        def params(f):
            out = []
            for p in inspect.signature(f).parameters.values():
                if p.kind.name.startswith("VAR"):
                    continue
                note = p.annotation if isinstance(p.annotation, str) else str(
                    p.annotation)
                out.append(dict(
                    n=p.name, dflt=p.default is not p.empty,
                    opt=bool(re.match(r"(typing\.)?Optional\[|None \|", note)
                             or note.endswith("| None")) or p.name in "__"))
            return out

        queries = dict(load.queries)
        c = dict(real=True, target=fn("LOADER", params(load.loader_function)),
                 queries=[dict(name=n, fn=fn(n, params(f)))
                          for n, f in queries.items()])
        load.queries = {n: listen(f, n) for n, f in queries.items()}
        load.loader_function = listen(load.loader_function, "LOADER")
        plain = name.strip("^")
        supplied = dict(kwargs, data=data, name=plain, tracker=rec)
        end = dict(op="end", tracked=True, history=[], seen=[])
        # the name is handed on as an equal string, not always the same one
        ids.update({id(v): tok(v) for v in supplied.values()})
        c["supplied"] = [dict(n=n, v=tok(v)) for n, v in supplied.items()]
        same = tok(plain)
        real_tok = tok

        def tok(v):  # noqa: F811
            return same if isinstance(v, str) and v == plain else real_tok(v)
        try:
            out = load(data, name, tracker=rec, **kwargs)
            val = list(out.values())[0] if load.__class__.__name__ != \
                "ReadFits" else None
            end["obs"] = dict(kind="ok", value=tok(val))
            if val is None and load.__class__.__name__ == "ReadFits":
                end["obs"]["value"] = tok(out)
        except Exception as ex:
            end["obs"] = dict(kind="exc", type=type(ex).__name__)
        end["history"] = [n for n, _ in rec.seen if n != "LOADER"]
        return [dict(op="case", c=c)] + events + [end]

    @staticmethod
    def make_pds3(d, rng):
        (d / "x.dat").write_bytes(bytes(range(48, 88)) * 4)
        (d / "d.txt").write_text("some words")
        rows = [("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", 3),
                ("ROW_BYTES", 4), ("COLUMNS", 1),
                ("OBJECT", "COLUMN", [
                    ("NAME", "A"), ("DATA_TYPE", "MSB_INTEGER"),
                    ("START_BYTE", 1), ("BYTES", 4)])]
        image = [("LINES", 4), ("LINE_SAMPLES", 5), ("SAMPLE_BITS", 8),
                 ("SAMPLE_TYPE", "UNSIGNED_INTEGER")]
        arr = [("AXES", 1), ("AXIS_ITEMS", 4), ("INTERCHANGE_FORMAT", "BINARY"),
               ("OBJECT", "ELEMENT", [
                   ("NAME", "E"), ("DATA_TYPE", "MSB_INTEGER"),
                   ("BYTES", 2)])]
        blocks = {"IMAGE": image, "TABLE": rows, "HEADER": [("BYTES", 10)],
                  "ARRAY": arr, "TELEMETRY_TABLE": rows,
                  "BROWSE_IMAGE": image, "ODD_THING": [("BYTES", 3)]}
        items = []
        for n in blocks:
            items.append(("^" + n, pds3.raw(
                f'("x.dat", {rng.randrange(1, 30)} <BYTES>)')))
        items.append(("^NOTE_TEXT", pds3.q("d.txt")))
        for n, b in blocks.items():
            items.append(("OBJECT", n, b))
        (d / "x.lbl").write_bytes(pds3.label(items))
        name = rng.choice(list(blocks) + ["NOTE_TEXT", "LABEL"])
        kw = {}
        if rng.random() < .5:
            kw = dict(rng.sample(
                [("start_byte", 7), ("debug", False), ("return_default", 5),
                 ("fn", str(d / "x.dat")), ("something", 3)],
                rng.randrange(1, 3)))
            if name in ("NOTE_TEXT", "LABEL"):
                kw.pop("fn", 0)
        return name, d / "x.lbl", kw

    @staticmethod
    def make_fits(d, rng):
        from astropy.io import fits

        fits.HDUList([
            fits.PrimaryHDU(np.arange(12, dtype="i2").reshape(3, 4)),
            fits.ImageHDU(np.arange(4.).reshape(2, 2), name="X"),
        ]).writeto(d / "x.fits")
        items = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880),
                 ("^HEADER", pds3.raw('("x.fits", 1)')),
                 ("^IMAGE", pds3.raw('("x.fits", 2)')),
                 ("OBJECT", "IMAGE", [
                     ("LINES", 3), ("LINE_SAMPLES", 4), ("SAMPLE_BITS", 16),
                     ("SAMPLE_TYPE", "MSB_INTEGER")])]
        (d / "x.lbl").write_bytes(pds3.label(items))
        return rng.choice(("IMAGE", "HEADER")), d / "x.lbl", {}

    @staticmethod
    def make_png(d, rng):
        from PIL import Image

        Image.fromarray(np.arange(12, dtype="u1").reshape(3, 4)).save(
            d / "x.png")
        items = [("^IMAGE", pds3.q("x.png")),
                 ("OBJECT", "IMAGE", [
                     ("LINES", 3), ("LINE_SAMPLES", 4), ("SAMPLE_BITS", 8),
                     ("SAMPLE_TYPE", "UNSIGNED_INTEGER")])]
        (d / "x.lbl").write_bytes(pds3.label(items))
        kw = {} if rng.random() < .5 else {"frame": 0}
        return "IMAGE", d / "x.lbl", kw

    def timeout_events(self, scn):
        return [dict(op="end", tracked=False, history=[], seen=[],
                     obs={"kind": "timeout"})]

    def nontrivial(self, evs):
        return sum(e["op"] == "call" for e in evs) > 1

    def canary(self, evs, rng):
        calls = [i for i, e in enumerate(evs) if e["op"] == "call"]
        if len(calls) < 2 or evs[-1]["obs"]["kind"] != "ok":
            return None
        r = rng.random()
        i = rng.choice(calls)
        if r < .3:
            evs.insert(i, dict(evs[i]))
        elif r < .5:
            del evs[i]
        elif r < .75 and evs[i]["args"]:
            evs[i]["args"][0]["v"] += "!"
        elif evs[-1]["tracked"] and evs[-1]["history"]:
            evs[-1]["history"].pop()
        else:
            evs[-1]["obs"]["value"] += "!"
        return evs
