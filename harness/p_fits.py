"""C22 FITS products."""
from __future__ import annotations

import math
import random
import struct
import warnings

import numpy as np
import pandas as pd

import pdr

from . import fitsfile, pds3, project
from .core import Prop
from .fitsfile import card, quoted
from .p_files import store
from .p_text import integer

NAMES = ["A", "B", "A", "A_0", "A_1", "A_HEADER", "HEADER", "IMAGE HEADER",
         "SCI", "SCI", "", "", "PRIMARY", "DATA", "X-1", "A_0_HEADER", "_0"]
UNSIGNED = {16: 2 ** 15, 32: 2 ** 31, 64: 2 ** 63}
WIDTH = dict(L=1, B=1, I=2, J=4, K=8, E=4, D=8, C=8, M=16)


def spell(v):
    """the card value that stands for a typed scalar"""
    if v["t"] == "str":
        return quoted(v["v"])
    if v["t"] == "bool":
        return "T" if v["v"] == "true" else "F"
    if v["t"] == "none":
        return ""
    return v["v"].upper() if v["t"] == "float" else v["v"]


def text(x):
    if isinstance(x, (complex, np.complexfloating)):
        return str(x)
    x = float(x) if isinstance(x, np.floating) else x
    if isinstance(x, float) and math.isnan(x):
        return "nan"
    return repr(x.item() if isinstance(x, np.generic) else x)


def proj(v):
    if hasattr(v, "keys") and hasattr(v, "items") and not isinstance(
            v, pd.DataFrame):
        return {"kind": "header", "spoiled": False,
                "items": [{"k": str(k), "v": project.scalar(x)}
                          for k, x in v.items()]}
    if isinstance(v, pd.DataFrame):
        t = project.table(v)
        t["spoiled"] = False
        for i, c in enumerate(t["cols"]):
            c["text"] = [x if isinstance(x, str) else text(x)
                         for x in v.iloc[:, i].tolist()]
            if v.iloc[:, i].dtype.kind == "c":
                a = v.iloc[:, i].to_numpy()
                c.update(kind="num", dtype=project.dtcode(a.dtype),
                         data=project.canon_bytes(a))
        return t
    if isinstance(v, np.ndarray):
        a = project.array(v)
        a["spoiled"] = False
        a["text"] = [text(x) for x in v.ravel().tolist()] \
            if v.dtype.kind != "c" else []
        return a
    return {"kind": type(v).__name__, "spoiled": False}


def spoil(v):
    if isinstance(v, pd.DataFrame):
        v["SPOILED"] = 1
    elif isinstance(v, np.ndarray):
        v[...] = 77
    else:
        v.add("SPOILED", 1)
    return {"kind": "done", "spoiled": True}


class Fits(Prop):
    id = "C22"
    module = "Trace_Fits"
    chunk_min = 30
    assumptions = (
        "table columns have names (astropy, the FITS reader underneath, has "
        "no data for tables with unnamed columns) and at most two axes; "
        "scaled values are halves of integers of moderate size; the last text "
        "column of an ASCII TABLE ends with the row; files with extensions say "
        "EXTEND",
        "labeled FITS files are described in records of 2880 bytes or by "
        "byte, and every pointer says where the object is")
    level_note = (
        "TLC explores every short list of HDU names with every short history "
        "of loading, dropping and modifying objects; each is replayed on a "
        "seeded FITS file written byte by byte; images and tables of all "
        "types with seeded headers, and labeled FITS files, are sampled")

    def __init__(self, *a):
        super().__init__(*a)
        n = (2, 3) if self.quick else (3, 3)
        self.models = [("MC_Fits", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" MaxHdus = {n[0]}\n MaxOps = {n[1]}\n"
            "INVARIANTS Distinct Reachable KeepsOwn InOrder Agrees Emit\n"),
            "names and histories")]

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        self.rng.shuffle(scns)
        return [self.one(names=s["names"], ops=s["ops"], mode="primary")
                for s in scns[:170 if self.quick else 3000]]

    def random_scenarios(self):
        rng = self.rng
        return [self.one(mode=rng.choice(("primary", "pds3")))
                for _ in range(230 if self.quick else 3500)]

    def one(self, mode, names=None, ops=None):
        return dict(mode=mode, names=names, ops=ops,
                    seed=self.rng.randrange(1 << 30))

    # -- contents ----------------------------------------------------------

    def value(self, rng):
        r = rng.random()
        if r < 0.3:
            s = rng.choice(("bar", "it's", "a / b", "  lead", "", "x = 3",
                            "2001-01-02T03:04:05", "N/A", "12", "T",
                            "a much longer text, of 40 letters or so"))
            return {"t": "str", "v": s}
        if r < 0.5:
            return {"t": "int", "v": str(rng.choice(
                (0, 1, -7, 2 ** 31, rng.randrange(-10 ** 6, 10 ** 6))))}
        if r < 0.7:
            return {"t": "float", "v": repr(rng.choice(
                (0.5, -1.25, 1e-05, 3e+20, -0.0, 100.0,
                 rng.randrange(-10 ** 6, 10 ** 6) / 64)))}
        if r < 0.85:
            return {"t": "bool", "v": rng.choice(("true", "false"))}
        if r < 0.92:
            return {"t": "none", "v": ""}
        return {"t": "cards", "v": rng.choice(("COMMENT", "HISTORY"))}

    def extras(self, rng):
        out = []
        for _ in range(rng.choice((0, 1, 3, 3, 40)) if rng.random() < 0.3
                       else rng.randrange(4)):
            v = self.value(rng)
            if v["t"] == "cards":
                s = rng.choice(("c1", "two words", "x = 'y' / z", "  in"))
                out.append((v["v"], {"t": "str", "v": s}, ""))
                continue
            k = rng.choice(("FOO", "BAR-1", "FILTER", "A_B", "EXPTIME",
                            "FOO", "KEYWORD8", "OBJECT"))
            if rng.random() < 0.1:
                k = rng.choice(("LONGER KEYWORD", "ESO DET ID"))
                if len(v["v"]) > 20:
                    v = {"t": "int", "v": "3"}
            c = rng.choice(("", "", "[m] a comment", "c", "x / y"))
            if v["t"] == "none":
                c = ""
            out.append((k, v, c))
        return out

    def scaling(self, rng, integral, w):
        """physical = (z2 + s2 * stored) / 2; w: bytes of an element"""
        if rng.random() < 0.55:
            return None
        return dict(s2=rng.choice((2, 1, 4, -2, 20, 3)),
                    z2=rng.choice((0, 0, 1, 20, -7, 80001)),
                    hasblank=False, blank=0)

    def element(self, rng, fmt, sc, big):
        """bytes of one element; small integers if they are to be scaled"""
        n = struct.calcsize(">" + fmt)
        if sc is not None:
            if fmt in "fd":
                return None
            v = rng.randrange(0, 256) if fmt == "B" else \
                rng.randrange(-1000, 1000)
            return struct.pack(">" + fmt, v)
        if fmt in "fd" and rng.random() < 0.7:
            return struct.pack(">" + fmt, rng.randrange(-10 ** 4, 10 ** 4) / 8)
        return rng.randbytes(n)

    def image(self, rng, i, name, force=False):
        bitpix = rng.choice((8, 16, 32, 64, -32, -64))
        naxis = rng.choice((0, 1, 2, 2, 2, 3, 4))
        if force and naxis == 0:
            naxis = 2
        axes = [rng.randrange(1, 5) for _ in range(naxis)]
        fmt = {8: "B", 16: "h", 32: "i", 64: "q", -32: "f", -64: "d"}[bitpix]
        sc, how = self.scaling(rng, bitpix > 0, abs(bitpix) // 8), "none"
        if bitpix < 0 or naxis == 0:
            sc = None
        cards = []
        if sc is not None:
            how = "scaled"
            if bitpix in UNSIGNED and rng.random() < 0.4:
                how, sc = "unsigned", None
                cards += [("BZERO", {"t": "int", "v": str(UNSIGNED[bitpix])},
                           "offset"), ("BSCALE", {"t": "int", "v": "1"}, "")]
            else:
                cards += [("BSCALE", {"t": "float", "v": repr(sc["s2"] / 2)},
                           ""),
                          ("BZERO", {"t": "float", "v": repr(sc["z2"] / 2)},
                           "zero")]
                if sc["s2"] == 2 and sc["z2"] == 0:
                    how, sc = "none", None
        n = int(np.prod(axes)) if axes else 0
        raw = b"".join(self.element(rng, fmt, sc, True) for _ in range(n))
        if sc is not None and rng.random() < 0.3:
            k = rng.randrange(n)
            w = abs(bitpix) // 8
            sc["hasblank"] = True
            sc["blank"] = int(struct.unpack(">" + fmt,
                                            raw[k * w:k * w + w])[0])
            sc["hasblank"] = sc["blank"] != 0
        if sc is not None and sc["hasblank"]:
            cards.append(("BLANK", {"t": "int", "v": str(sc["blank"])}, ""))
        head = [("BITPIX", {"t": "int", "v": str(bitpix)}, ""),
                ("NAXIS", {"t": "int", "v": str(naxis)}, "number of axes")]
        head += [(f"NAXIS{j}", {"t": "int", "v": str(x)}, "")
                 for j, x in enumerate(axes, 1)]
        return dict(name=name, kind="image", bitpix=bitpix, axes=axes,
                    scale=dict(sc or dict(s2=2, z2=0, hasblank=False,
                                          blank=0), how=how),
                    head=head, cards=cards, raw=raw, fill=b"\0",
                    nrows=0, rowbytes=0, cols=[], lines=[])

    def colnames(self, rng, n):
        pool = ["TIME", "FLUX", "X", "X", "X_0", "X_2", "Y", "a b", "x",
                "FLAG", "Q-1"]
        return [rng.choice(pool) for _ in range(n)]

    def tabhead(self, kind, rowbytes, nrows, ncols):
        i = lambda n: {"t": "int", "v": str(n)}
        return [("BITPIX", i(8), ""), ("NAXIS", i(2), ""),
                ("NAXIS1", i(rowbytes), "bytes per row"),
                ("NAXIS2", i(nrows), ""), ("PCOUNT", i(0), ""),
                ("GCOUNT", i(1), ""), ("TFIELDS", i(ncols), "columns")]

    def bintable(self, rng, name):
        nrows = rng.choice((0, 1, 2, 3, 5))
        s = lambda x: {"t": "str", "v": x}
        cols, cards, off = [], [], 0
        plain = rng.random() < 0.35
        names = self.colnames(rng, rng.randrange(1, 6))
        for j, nm in enumerate(names, 1):
            code = rng.choice("LXBIJKEDCMAAII")
            if plain and code == "X":
                code = "I"
            rep = 1 if plain or rng.random() < 0.6 else rng.randrange(2, 5)
            spelled = rng.random() < 0.5 or rep > 1
            cells, how, sc, tdim = rep, "none", None, ""
            many = rep > 1
            if code == "A":
                w = rng.randrange(1, 7)
                rep, cells, many = w, 1, False
                if nrows and not plain and rng.random() < 0.2:
                    cells, many = rng.randrange(2, 4), True
                    rep, tdim = w * cells, f"({w},{cells})"
                spelled = True
                size = rep
            elif code == "X":
                w, size, many = 1, (rep + 7) // 8, True
                if rng.random() < 0.3:
                    rep = cells = rng.randrange(8, 18)
                    size = (rep + 7) // 8
                spelled = True
            else:
                w = WIDTH[code]
                if rep == 4 and rng.random() < 0.5:
                    tdim = "(2,2)"
                size = w * rep
            if code in "BIJ" and (sc := self.scaling(rng, True, w)):
                how = "scaled"
                if code in "IJ" and rng.random() < 0.4:
                    how, sc = "unsigned", None
            form = (str(rep) if spelled else "") + code
            cards += [(f"TTYPE{j}", s(nm), "name of column"),
                      (f"TFORM{j}", s(form), "")]
            if tdim:
                cards.append((f"TDIM{j}", s(tdim), ""))
            if how == "unsigned":
                cards.append((f"TZERO{j}", {"t": "int", "v": str(
                    UNSIGNED[8 * w])}, ""))
            if how == "scaled":
                if sc["s2"] == 2 and sc["z2"] == 0:
                    sc["s2"] = 4
                cards += [(f"TSCAL{j}", {"t": "float", "v": repr(
                    sc["s2"] / 2)}, ""), (f"TZERO{j}", {
                        "t": "float", "v": repr(sc["z2"] / 2)}, "")]
            if rng.random() < 0.2:
                cards.append((f"TUNIT{j}", s("m / s"), ""))
            cols.append(dict(name=nm, code=code, rep=rep, cells=cells, w=w,
                             off=off, how=how, many=many,
                             sc=sc or dict(s2=2, z2=0, hasblank=False,
                                           blank=0)))
            cols[-1]["size"] = size
            off += size
        rows = b""
        fmt = dict(B="B", I="h", J="i", K="q", E="f", D="d", C="ff", M="dd")
        for _ in range(nrows):
            for c in cols:
                if c["code"] == "A":
                    for _ in range(c["cells"]):
                        t = "".join(rng.choice("abc XYZ,.1'") for _ in range(
                            rng.randrange(c["w"] + 1))).encode()
                        rows += t.ljust(c["w"], rng.choice((b" ", b"\0")))
                elif c["code"] == "L":
                    rows += bytes(rng.choice(b"TF")
                                  for _ in range(c["rep"]))
                elif c["code"] == "X":
                    bits = "".join(rng.choice("01") for _ in range(c["rep"]))
                    bits = bits.ljust(8 * c["size"], "0")
                    rows += int(bits, 2).to_bytes(c["size"], "big")
                else:
                    for _ in range(c["cells"]):
                        for f in fmt[c["code"]]:
                            rows += self.element(
                                rng, f, c["sc"] if c["how"] == "scaled"
                                else None, False)
        return dict(name=name, kind="bintable", bitpix=8, axes=[off, nrows],
                    scale=dict(s2=2, z2=0, hasblank=False, blank=0,
                               how="none"),
                    head=self.tabhead("BINTABLE", off, nrows, len(cols)),
                    cards=cards, raw=rows, fill=b"\0", nrows=nrows,
                    rowbytes=off, cols=cols, lines=[])

    def texttable(self, rng, name):
        nrows = rng.choice((1, 2, 3, 5))
        s = lambda x: {"t": "str", "v": x}
        cols, cards, at = [], [], 0
        names = self.colnames(rng, rng.randrange(1, 5))
        for j, nm in enumerate(names, 1):
            at += rng.randrange(3)
            code = rng.choice("IFEDA")
            w = dict(I=rng.randrange(2, 11), F=10, E=13, D=14,
                     A=rng.randrange(1, 8))[code]
            form = {"I": f"I{w}", "A": f"A{w}", "F": "F10.3", "E": "E13.4",
                    "D": "D14.5"}[code]
            cards += [(f"TBCOL{j}", {"t": "int", "v": str(at + 1)}, ""),
                      (f"TTYPE{j}", s(nm), ""), (f"TFORM{j}", s(form), "c")]
            cols.append(dict(name=nm, code=code, rep=1, cells=1, w=w, off=at,
                             how="none", many=False,
                             sc=dict(s2=2, z2=0, hasblank=False, blank=0)))
            at += w
        if cols[-1]["code"] != "A":
            at += rng.randrange(3)
        lines = []
        for _ in range(nrows):
            line = " " * at
            for c in cols:
                if c["code"] == "A":
                    f = "".join(rng.choice("abXY .1") for _ in range(c["w"]))
                    f = f[:-1] + "z"
                elif c["code"] == "I":
                    f = str(rng.randrange(-10 ** (c["w"] - 1) + 1,
                                          10 ** (c["w"] - 1)))
                    f = f.rjust(c["w"]) if rng.random() < 0.7 else \
                        f.ljust(c["w"])
                else:
                    x = rng.randrange(-10 ** 5, 10 ** 5) / 8
                    f = {"F": f"{x:10.3f}", "E": f"{x:13.4E}",
                         "D": f"{x:14.5E}".replace("E", "D")}[c["code"]]
                assert len(f) == c["w"], (f, c)
                line = line[:c["off"]] + f + line[c["off"] + c["w"]:]
            lines.append(line)
        return dict(name=name, kind="table", bitpix=8, axes=[at, nrows],
                    scale=dict(s2=2, z2=0, hasblank=False, blank=0,
                               how="none"),
                    head=self.tabhead("TABLE", at, nrows, len(cols)),
                    cards=cards, raw="".join(lines).encode(), fill=b" ",
                    nrows=nrows, rowbytes=at, cols=cols, lines=lines)

    def build(self, rng, names):
        hdus, content = [], b""
        for i, nm in enumerate(names):
            r = rng.random()
            h = (self.image(rng, i, nm) if i == 0 or r < 0.5 else
                 self.bintable(rng, nm) if r < 0.8 else
                 self.texttable(rng, nm))
            if i == 0:
                cards = [("SIMPLE", {"t": "bool", "v": "true"}, "standard")]
                cards += h.pop("head")
                if rng.random() < 0.5 or len(names) > 1:
                    cards.append(("EXTEND", {"t": "bool", "v": "true"}, ""))
            else:
                x = dict(image="IMAGE", bintable="BINTABLE", table="TABLE")
                cards = [("XTENSION", {"t": "str", "v": x[h["kind"]]}, "ext")]
                head = h.pop("head")
                if h["kind"] == "image":
                    head += [("PCOUNT", {"t": "int", "v": "0"}, ""),
                             ("GCOUNT", {"t": "int", "v": "1"}, "")]
                cards += head
            own = h.pop("cards")
            if nm:
                own.insert(0, ("EXTNAME", {"t": "str", "v": nm}, ""))
            rest = self.extras(rng)
            if rng.random() < 0.5:
                own = own + rest
            else:
                own = rest + own
            cards += own
            head = fitsfile.header([card(k, v["v"] if k in (
                "COMMENT", "HISTORY") else spell(v), c) for k, v, c in cards])
            raw = h.pop("raw")
            h["ncards"], h["nbytes"] = len(cards), len(raw)
            h["data"] = list(raw) if h["kind"] != "table" else []
            h["cards"] = [dict(k=k, v=v, c=c) for k, v, c in cards]
            h["at"] = len(content)
            content += head
            h["dat"] = len(content)
            content += fitsfile.data(raw, h.pop("fill"))
            hdus.append(h)
        return hdus, content

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        names = scn["names"]
        if names is None:
            names = [rng.choice(NAMES) for _ in range(rng.randrange(0, 5))]
        first = rng.choice(("", "", "", "PRIMARY", "A")) \
            if scn["names"] is None else ""
        hdus, content = self.build(rng, [first] + names)
        ev = dict(mode=scn["mode"], hdus=hdus, objs=[])
        if scn["mode"] == "primary":
            fn = d / ("f" + rng.choice((".fits", ".fit", ".FITS", ".fits.gz",
                                        ".fit.gz")))
            store(fn, content)
        else:
            fn = d / "f.lbl"
            data = rng.choice(("g.fits", "G.FIT", "g.fit"))
            (d / data).write_bytes(content)
            ev["objs"] = self.objects(rng, hdus)
            items = [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880)]
            defs = []
            for o in ev["objs"]:
                at = (f"{o['at']} <BYTES>" if o["unit"] == "byte"
                      else o["at"])
                items.append(("^" + o["name"],
                              pds3.raw(f'("{data}", {at})')))
                defs.append(("OBJECT", o["name"], [("BYTES", 2880)]))
            fn.write_bytes(pds3.label(items + defs))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = {}

            def opening():
                got["d"] = x = pdr.read(str(fn))
                meta = []
                if scn["mode"] == "primary":
                    meta = [{"name": k, "header": proj(x.metadata[k])}
                            for k in x.metadata.keys()]
                return {"kind": "opened", "meta": meta, "keys": [
                    k for k in x.keys() if k != "LABEL"]}
            ev["opened"] = project.observe(opening, lambda v: v)
            ev["ops"] = self.use(rng, got.get("d"), scn["ops"])
        for h in hdus:
            h.pop("dat")
            h.pop("at")
            for c in h["cols"]:
                c.pop("size", None)
        return [ev]

    def objects(self, rng, hdus):
        out, used = [], set()
        for i, h in enumerate(hdus):
            parts = ["header", "data"] if h["nbytes"] else ["header"]
            for part in parts:
                if rng.random() < 0.4:
                    continue
                nm = (rng.choice(("IMAGE", "SCI_IMAGE", "QUBE"))
                      if h["kind"] == "image" else
                      rng.choice(("TABLE", "X_TABLE", "SPECTRUM")))
                if part == "header":
                    nm = rng.choice(("HEADER", nm + "_HEADER",
                                     "IMAGE_HEADER", "FITS_HEADER"))
                if nm in used:
                    continue
                used.add(nm)
                loc = h["at"] if part == "header" else h["dat"]
                unit = rng.choice(("record", "byte"))
                out.append(dict(name=nm, unit=unit, at=1 + (
                    loc // 2880 if unit == "record" else loc)))
        rng.shuffle(out)
        return out

    def use(self, rng, x, ops):
        """run a history; unreadable choices are left out"""
        done, ours = [], {}
        if x is None:
            return done
        keys = [k for k in x.keys() if k != "LABEL"]
        if ops is None:
            todo = [("get", k) for k in keys]
            rng.shuffle(todo)
            for _ in range(rng.randrange(7)):
                todo.append((rng.choice(("get", "load", "load", "drop",
                                         "spoil")), None))
            last = True
        else:
            todo = [(o["op"], o["name"]) for o in ops]
            last = rng.random() < 0.7
        if last:
            todo.append(("rest", None))
        while todo:
            op, nm = todo.pop(0)
            keys = [k for k in x.keys() if k != "LABEL"]
            if op == "rest":
                todo = [("get", k) for k in keys]
                continue
            if nm is None:
                if not keys:
                    continue
                nm = rng.choice(keys)
            held = nm in x.__dict__
            if op in ("drop", "spoil") and not held:
                continue
            if op == "spoil" and unspoilable(x.__dict__[nm]):
                continue

            def act():
                if op == "get":
                    return proj(x[nm])
                if op == "load":
                    x.load(nm, reload=True)
                    return proj(x[nm])
                if op == "drop":
                    delattr(x, nm)
                    return {"kind": "done", "spoiled": False}
                ours[nm] = x.__dict__[nm]
                return spoil(x[nm])
            o = project.observe(act, lambda v: v)
            if op in ("get", "load"):
                o["spoiled"] = x.__dict__.get(nm, o) is ours.get(nm)
            done.append(dict(op=op, name=nm, obs=o, keys=[
                k for k in x.keys() if k != "LABEL"]))
        return done

    def timeout_events(self, scn):
        return [dict(mode=scn["mode"], hdus=[], objs=[], ops=[],
                     opened={"kind": "timeout"})]

    def canary(self, evs, rng):
        e = evs[0]
        if e["opened"]["kind"] != "opened" or not e["ops"]:
            return None
        o = rng.choice(e["ops"])
        if o["op"] not in ("get", "load"):
            return None
        o = o["obs"]
        if o.get("spoiled"):
            o["spoiled"] = False
        elif o["kind"] == "header":
            if rng.random() < 0.5:
                o["items"].pop(rng.randrange(len(o["items"])))
            else:
                o["items"].append({"k": "Z", "v": {"t": "int", "v": "1"}})
        elif o["kind"] == "array" and o["data"]:
            k = rng.randrange(len(o["data"]))
            o["data"][k][0] ^= 1
            o["text"][k] = "31337.25"
        elif o["kind"] == "table" and o["nrows"]:
            c = rng.choice(o["cols"])
            k = rng.randrange(len(c["data"]))
            if rng.random() < 0.3:
                c["name"] += "_9"
            elif c["data"][k]:
                c["data"][k][0] ^= 1
                c["text"][k] = "31337.25"
            else:
                return None
        else:
            return None
        return evs


def unspoilable(v):
    if isinstance(v, np.ndarray):
        return not v.size or not v.flags.writeable
    if isinstance(v, pd.DataFrame):
        return False
    return not hasattr(v, "add")
