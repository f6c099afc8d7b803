"""C12 image geometry, C13 qube axes and planes."""
from __future__ import annotations

import random

import pdr

from . import pds3, project
from .core import Prop

INTS = [
    "LSB_INTEGER", "PC_INTEGER", "VAX_INTEGER", "MSB_INTEGER", "SUN_INTEGER",
    "MAC_INTEGER", "INTEGER", "LSB_UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER",
    "VAX_UNSIGNED_INTEGER", "MSB_UNSIGNED_INTEGER", "SUN_UNSIGNED_INTEGER",
    "MAC_UNSIGNED_INTEGER", "UNSIGNED_INTEGER",
]
REALS = ["IEEE_REAL", "FLOAT", "REAL", "MAC_REAL", "SUN_REAL", "PC_REAL"]
BST = {"BSQ": "BAND_SEQUENTIAL", "BIL": "LINE_INTERLEAVED",
       "BIP": "SAMPLE_INTERLEAVED"}
AXES = {"BSQ": ["SAMPLE", "LINE", "BAND"], "BIL": ["SAMPLE", "BAND", "LINE"],
        "BIP": ["BAND", "SAMPLE", "LINE"]}


def all_types():
    out = [(t, n) for t in INTS for n in (1, 2, 4, 8)]
    out += [(t, n) for t in REALS for n in (4, 8)]
    return out + [("VAX_REAL", 4)]


def padded(g):
    p = {a: (g["apre"] + g["asuf"] if g["ax"] == a else 0)
         for a in ("BAND", "LINE", "SAMPLE")}
    return (g["bands"] + p["BAND"], g["lines"] + p["LINE"],
            g["samples"] + p["SAMPLE"])


def total(g):
    b, l, s = padded(g)
    return l * (b * s + g["pre"] + g["suf"])


def vaxbytes(rng, n):
    """n ordinary VAX F floats (exponent field 3..254, or true zero)"""
    out = b""
    for _ in range(n):
        if rng.random() < 0.1:
            out += b"\0\0\0\0"
            continue
        e, s = rng.randrange(3, 256), rng.randrange(2)
        m = rng.randrange(1 << 23)
        word = (s << 31) | (e << 23) | m
        b = word.to_bytes(4, "big")
        out += bytes([b[1], b[0], b[3], b[2]])
    return out


def databytes(rng, t, n, count):
    if t == "VAX_REAL":
        return vaxbytes(rng, count)
    mode = rng.random()
    if mode < 0.15:
        return bytes(rng.choice((0, 255, 128, 127, 1)) for _ in range(n * count))
    return rng.randbytes(n * count)


class RasterProp(Prop):
    module = "Trace_Raster"
    qube = False
    chunk_min = 60

    def __init__(self, *a):
        super().__init__(*a)
        sizes = "{1, 2, 3}" if self.quick else "{1, 2, 3, 4}"
        fixes = "{0, 1, 2}" if self.quick else "{0, 1, 2, 3}"
        pads = "{0, 1, 2}" if self.quick else "{0, 1, 2, 3}"
        self.models = [("MC_Raster", (
            f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" Sizes = {sizes}\n Fixes = {fixes}\n Pads = {pads}\n"
            "INVARIANTS TotalOK InverseOK NoLeak OrderOK Emit\n"), "full")]

    def wants(self, g):
        raise NotImplementedError

    def one(self, g, t, n, rng):
        rb = rng.choice((16, 37, 64, 128))
        mode = rng.choice(("file", "record", "bytes"))
        if mode == "file":
            start = 0
        elif mode == "record":
            start = rb * rng.randrange(0, 4)
        else:
            start = rng.randrange(0, 70)
        return dict(
            g=g, type=t, n=n, start=start, mode=mode, rb=rb,
            seed=rng.randrange(1 << 30),
            bandkw=rng.random() < 0.5,
            name=rng.choice(self.names),
            access=rng.choice(("item", "attr", "load")),
            via=rng.choice(("label", "data")),
            tail=rng.randrange(0, 9),
            style=rng.randrange(1 << 16),
        )

    def from_model(self, scns):
        out, types = [], all_types()
        self.rng.shuffle(types)
        k = 0
        for g in sorted(scns, key=lambda s: sorted(s.items())):
            if not self.wants(g):
                continue
            t, n = types[k % len(types)]
            k += 1
            out.append(self.one(g, t, n, self.rng))
        return out

    def random_scenarios(self):
        rng, out = self.rng, []
        types = all_types()
        for k in range(900 if self.quick else 12000):
            g = self.random_geometry(rng)
            t, n = types[k % len(types)] if k < 3 * len(types) else rng.choice(
                types)
            out.append(self.one(g, t, n, rng))
        return out

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        g, t, n = scn["g"], scn["type"], scn["n"]
        body = databytes(rng, t, n, total(g))
        file = rng.randbytes(scn["start"]) + body + rng.randbytes(scn["tail"])
        (d / "data.img").write_bytes(file)
        ptr = {
            "file": pds3.q("data.img"),
            "record": pds3.raw(
                f'("data.img", {scn["start"] // scn["rb"] + 1})'),
            "bytes": pds3.raw(f'("data.img", {scn["start"] + 1} <BYTES>)'),
        }[scn["mode"]]
        (d / "data.lbl").write_bytes(pds3.label(
            [("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", scn["rb"]),
             ("^" + scn["name"], ptr),
             ("OBJECT", scn["name"], self.block(scn, rng))]))
        name = scn["name"]

        def go():
            data = pdr.read(str(d / ("data.lbl" if scn["via"] == "label"
                                     else "data.img")))
            if scn["access"] == "item":
                return data[name]
            if scn["access"] == "attr":
                return getattr(data, name)
            data.load(name)
            return data[name]

        return [dict(g=g, type=t, n=n, start=scn["start"], file=list(file),
                     obs=project.observe(go))]

    def timeout_events(self, scn):
        return [dict(g=scn["g"], type=scn["type"], n=scn["n"],
                     start=scn["start"], file=[], obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        o = evs[0]["obs"]
        if o["kind"] != "array" or not o["data"]:
            return None
        what = rng.choice(("byte", "dtype", "shape", "swap"))
        if what == "byte":
            e = rng.choice(o["data"])
            e[rng.randrange(len(e))] ^= 1 << rng.randrange(8)
        elif what == "dtype":
            o["dtype"] = ("u" if o["dtype"][0] != "u" else "i") + o["dtype"][1:]
        elif what == "shape":
            o["shape"] = o["shape"] + [1]
        else:
            ks = [k for k in range(1, len(o["data"]))
                  if o["data"][k] != o["data"][0]]
            if not ks:
                return None
            k = rng.choice(ks)
            o["data"][0], o["data"][k] = o["data"][k], o["data"][0]
        return evs


class Image(RasterProp):
    id = "C12"
    names = ["IMAGE", "IMAGE", "BROWSE_IMAGE", "CALIBRATED_IMAGE"]

    def wants(self, g):
        return g["ax"] == "none"

    def random_geometry(self, rng):
        org = rng.choice(("2D", "2D", "BSQ", "BIL", "BIL", "BIP"))
        b = 1 if org == "2D" else rng.randrange(2, 5)
        fix = org in ("2D", "BIL")
        return dict(
            org=org, bands=b, lines=rng.randrange(1, 8),
            samples=rng.randrange(1, 9),
            pre=rng.choice((0, 0, 1, 2, 5)) if fix else 0,
            suf=rng.choice((0, 0, 1, 3, 4)) if fix else 0,
            ax="none", apre=0, asuf=0)

    def block(self, scn, rng):
        g, n = scn["g"], scn["n"]
        t = scn["type"]
        if scn["style"] & 1:
            t = pds3.q(t)
        items = [("LINES", g["lines"]), ("LINE_SAMPLES", g["samples"]),
                 ("SAMPLE_BITS", 8 * n), ("SAMPLE_TYPE", t)]
        if g["org"] != "2D":
            items += [("BANDS", g["bands"]),
                      ("BAND_STORAGE_TYPE", BST[g["org"]])]
        elif scn["bandkw"]:
            items += [("BANDS", 1)]
            if scn["style"] & 2:
                items += [("BAND_STORAGE_TYPE",
                           rng.choice(list(BST.values())))]
        if g["pre"] or scn["style"] & 4:
            items.append(("LINE_PREFIX_BYTES", g["pre"] * n))
        if g["suf"] or scn["style"] & 8:
            items.append(("LINE_SUFFIX_BYTES", g["suf"] * n))
        rng.shuffle(items)
        return items


class Qube(RasterProp):
    id = "C13"
    names = ["QUBE", "SPECTRAL_QUBE", "QUBE"]

    def wants(self, g):
        return g["org"] != "2D" and not (g["pre"] or g["suf"])

    def random_geometry(self, rng):
        ax = rng.choice(("none", "BAND", "LINE", "SAMPLE"))
        pads = (0, 0)
        if ax != "none":
            while pads == (0, 0):
                pads = (rng.randrange(3), rng.randrange(4))
        return dict(
            org=rng.choice(("BSQ", "BIL", "BIP")), bands=rng.randrange(1, 5),
            lines=rng.randrange(1, 6), samples=rng.randrange(1, 6),
            pre=0, suf=0, ax=ax, apre=pads[0], asuf=pads[1])

    def block(self, scn, rng):
        g, n = scn["g"], scn["n"]
        axes = AXES[g["org"]]
        size = {"BAND": g["bands"], "LINE": g["lines"],
                "SAMPLE": g["samples"]}
        items = [
            ("AXES", 3),
            ("AXIS_NAME", pds3.raw("(" + ",".join(axes) + ")")),
            ("CORE_ITEMS", tuple(size[a] for a in axes)),
            ("CORE_ITEM_BYTES", n), ("CORE_ITEM_TYPE", scn["type"]),
        ]
        for side, cnt in (("PREFIX", g["apre"]), ("SUFFIX", g["asuf"])):
            if cnt or (g["ax"] != "none" and scn["style"] & 16):
                items.append((f"{side}_ITEMS", tuple(
                    cnt if a == g["ax"] else 0 for a in axes)))
                nb = n
                if scn["style"] & 32 and cnt > 0:
                    val = tuple([n] * cnt)
                else:
                    val = nb
                items.append((f"{g['ax']}_{side}_ITEM_BYTES", val))
        if scn["style"] & 64:
            items.append(("BAND_STORAGE_TYPE", BST[g["org"]]))
        return items
