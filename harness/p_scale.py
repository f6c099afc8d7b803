"""C20 scaling, C21 special constants."""
from __future__ import annotations

import math
import random
import struct
from fractions import Fraction

import numpy as np

from . import pds3, project
from .core import Prop
from .p_files import get, read

FMT = {"uint8": "B", "int8": "b", "uint16": "H", "int16": "h", "uint32": "I",
       "int32": "i", "uint64": "Q", "int64": "q", "float32": "f",
       "float64": "d", "complex64": "f", "complex128": "d"}
SIZE = {k: struct.calcsize(">" + v) for k, v in FMT.items()}
PDS3 = {("u", "<"): ["LSB_UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER"],
        ("u", ">"): ["MSB_UNSIGNED_INTEGER", "UNSIGNED_INTEGER"],
        ("i", "<"): ["LSB_INTEGER", "PC_INTEGER"],
        ("i", ">"): ["MSB_INTEGER", "INTEGER", "SUN_INTEGER"],
        ("f", "<"): ["PC_REAL"], ("f", ">"): ["IEEE_REAL", "MAC_REAL"]}
PDS4 = {"uint8": "UnsignedByte", "int8": "SignedByte",
        "float32": "IEEE754{}Single", "float64": "IEEE754{}Double",
        "complex64": "Complex{}8", "complex128": "Complex{}16"}
for _k, _n in (("uint", "Unsigned"), ("int", "Signed")):
    for _b in (2, 4, 8):
        PDS4[f"{_k}{8 * _b}"] = f"{_n}{{}}{_b}"
FBITS = [struct.unpack(">f", bytes.fromhex("FF7FFFF" + c))[0] for c in "BCDEF"]
F32 = [struct.unpack(">f", struct.pack(">f", x))[0] for x in (1e32, -1e32)]
IMPLICIT = {  # only used to place interesting values in arrays
    "uint8": [0, 255], "int8": [-128, 127],
    "int16": [-32768, 32767, -32767, -32766, -32765, -32764, -32763, 32766],
    "uint16": [0, 1, 2, 3, 65532, 65533, 65534, 65535],
    "int32": [-2147483648, 2147483647, -214743648, 2147483646],
    "int64": [-2147483648, 2147483647, -214743648, -2 ** 63, 2 ** 63 - 1],
    "uint32": [4294967293, 4294967294, 4294967295, 0, 4286578682]
    + [0xFF7FFFFB + i for i in range(6)],
    "uint64": [0, 2 ** 64 - 1, 65535],
    "float32": FBITS + F32 + [math.nan, math.inf, -math.inf],
    "float64": [FBITS[0], math.nan, math.inf, -math.inf],
}
KEYS = ["INVALID_CONSTANT", "MISSING_CONSTANT", "INFINITY_CONSTANT",
        "NOT_APPLICABLE_CONSTANT", "NULL_CONSTANT", "UNKNOWN_CONSTANT",
        "CORE_NULL", "CORE_HIGH_REPR_SATURATION", "CORE_LOW_INST_SATURATION",
        "CORE_LOW_REPR_SAT", "NULL", "HIGH_REPR_SAT", "SATURATION",
        "LOW_SATURATION", "BAND_SUFFIX_NULL", "LINE_SUFFIX_HIGH_INST_SAT",
        "SAMPLE_SUFFIX_NULL"]
DECOYS = ["MAXIMUM", "MINIMUM", "MEAN", "MISSING_SCAN_LINES", "NULL_VALUE",
          "SATURATED_PIXEL_COUNT", "INVALID", "DARK_CONSTANT"]
K4 = ["saturated_constant", "missing_constant", "error_constant",
      "invalid_constant", "unknown_constant", "not_applicable_constant",
      "valid_maximum", "high_instrument_saturation",
      "high_representation_saturation", "valid_minimum",
      "low_instrument_saturation", "low_representation_saturation"]

XML = """<?xml version="1.0" encoding="UTF-8"?>
<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">
  <Identification_Area>
    <logical_identifier>urn:nasa:pds:a:b:c</logical_identifier>
    <version_id>1.0</version_id><title>t</title>
    <information_model_version>1.11.0.0</information_model_version>
    <product_class>Product_Observational</product_class>
  </Identification_Area>
  <File_Area_Observational>
    <File><file_name>{fn}</file_name></File>
    <Array_2D_Image>
      <local_identifier>PIX</local_identifier>
      <offset unit="byte">{at}</offset>
      <axes>2</axes>
      <axis_index_order>Last Index Fastest</axis_index_order>
      <Element_Array><data_type>{t}</data_type>{el}</Element_Array>
      <Axis_Array><axis_name>Line</axis_name><elements>{lines}</elements>
        <sequence_number>1</sequence_number></Axis_Array>
      <Axis_Array><axis_name>Sample</axis_name><elements>{samples}</elements>
        <sequence_number>2</sequence_number></Axis_Array>
      {sp}
    </Array_2D_Image>
  </File_Area_Observational>
</Product_Observational>
"""


def big(x, bits):
    """x in units of 2**-bits as a big integer of the specification"""
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return {"s": 9, "l": []}
        if math.isinf(x):
            return {"s": 8 if x > 0 else 7, "l": []}
    f = Fraction(int(x) if isinstance(x, (int, np.integer)) else x)
    n = f * 2 ** bits
    if n.denominator != 1:
        return {"s": 6, "l": []}
    n, limbs = int(n), []
    m = abs(n)
    while m:
        limbs.append(m % 1000)
        m //= 1000
    return {"s": (n > 0) - (n < 0), "l": limbs}


def proj(v):
    if not isinstance(v, np.ndarray) or (
        v.dtype.kind not in "iufc"
        and not (v.dtype.kind == "O"     # integers beyond the fixed widths
                 and all(isinstance(x, int)
                         for x in np.ma.getdata(v).ravel()))
    ):
        return {"kind": "other", "type": type(v).__name__}
    mask = np.ma.getmaskarray(v).ravel()
    data = np.asarray(np.ma.getdata(v)).ravel()
    if v.dtype.kind == "c":          # real and imaginary parts in turn
        data = np.stack([data.real, data.imag], axis=1).ravel()
        mask = np.repeat(mask, 2)
    return {"kind": "array", "shape": [int(n) for n in v.shape],
            "mask": [int(m) for m in mask],
            "data": [big(getattr(x, "item", lambda: x)(), 6)
                     for x in data]}


class ScaleProp(Prop):
    module = "Trace_Scale"
    stateful = True
    chunk_min = 60
    assumptions = (
        "elements, factors and offsets are chosen so that exact results are "
        "representable (dyadic reals); results of integer scaling fit a "
        "64-bit integer type together with the stored elements",)
    level_note = (
        "TLC explores every history of requests over every way the label can "
        "state factor, offset and constants; the histories are run on real "
        "products with seeded dtypes, byte orders and element values "
        "(sampled, biased to type limits and special constants)")

    def __init__(self, *a):
        super().__init__(*a)
        n = 3 if self.quick else 4
        self.models = [("MC_Scale", (
            f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = {n}\n"
            ' Stds = {"PDS3", "PDS4"}\nINVARIANTS OutOK HeldOK Spared'
            " SpecialsNeverScaled ImplicitKnown ValidIsNotSpecial Emit\n"
        ), f"n{n}")]

    def from_model(self, scns):
        n = 900 if self.quick else 12000
        scns = sorted(scns, key=lambda s: str(sorted(s.items())))
        scns = [s for s in scns if set(s["hist"]) & {"get", "getin"}]
        if len(scns) > n:
            scns = self.rng.sample(scns, n)
        return [self.one(s["std"], s["kind"], s["sp"], s["hist"])
                for s in scns]

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(500 if self.quick else 8000):
            std = rng.choice(("PDS3", "PDS3", "PDS4"))
            kind = rng.choice(
                ("none", "int", "int", "real", "units", "na", "planes",
                 "plane-factor", "plane-offset") if std == "PDS3"
                else ("none", "int", "real"))
            hist = [rng.choice(("item", "get", "get", "get", "getin", "getin",
                                "reload", "other"))
                    for _ in range(rng.choice((1, 2, 2, 5, 7)))]
            out.append(self.one(std, kind, rng.choice(
                ("none", "explicit", "implicit", "both")), hist))
        return out

    def one(self, std, kind, sp, hist):
        return dict(std=std, kind=kind, sp=sp, hist=list(hist),
                    seed=self.rng.randrange(1 << 30))

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        while True:
            c = self.design(scn, rng)
            if c is not None:
                break
        fn, name = self.write(c, d, rng)
        events = [dict(
            op="open", want=self.id, std=c["std"], dtype=c["dtype"],
            crism=c["crism"], complex=c["complex"],
            planes=c["planes"], shape=c["shape"], factor=self.term(c["f"], 3),
            offset=self.term(c["o"], 6), data=[big(v, 3) for v in c["vals"]],
            consts=[dict(key=k, num=num is not None,
                         v=big(num if num is not None else 0, 3))
                    for k, _, num in c["consts"]],
            obs={"kind": "ok"})]
        data, _ = read(fn)
        fdt = None
        if c["f32ok"] and not c["complex"] and rng.random() < 0.3:
            fdt = rng.choice((np.float32, np.float64, "float32"))
        for op in scn["hist"]:
            e = dict(op=op, inplace=False)
            if op in ("get", "getin"):
                e["op"], e["inplace"] = "get", op == "getin"
                kw = {"inplace": True} if op == "getin" else {}
                if fdt is not None:
                    kw["float_dtype"] = fdt
                e["obs"] = project.observe(
                    lambda: data.get_scaled(name, **kw), proj)
            elif op == "other":
                other = "label" if c["std"] == "PDS4" else "IMAGE_HEADER"
                e["obs"] = project.observe(lambda: data.get_scaled(other),
                                           proj)
            elif op == "reload":
                data.load(name, reload=True)
                e["obs"] = {"kind": "ok"}
            else:
                data[name]
                e["obs"] = {"kind": "ok"}
            e["held"] = project.observe(lambda: data[name], proj)
            events.append(e)
        return events

    @staticmethod
    def term(t, bits):
        kind, vals = t
        return {"k": kind, "v": [big(v, bits) for v in vals]}

    def design(self, scn, rng):
        std, kind, sp = scn["std"], scn["kind"], scn["sp"]
        dtype = rng.choice(list(FMT)[:10])
        cplx = std == "PDS4" and sp == "none" and rng.random() < .2
        if cplx:
            dtype = rng.choice(("complex64", "complex128"))
        isf = cplx or dtype.startswith("float")
        n = SIZE[dtype]
        lo, hi = (-64, 64) if isf else (
            (0, 2 ** (8 * n) - 1) if dtype[0] == "u"
            else (-2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1))
        planes = rng.choice((2, 3)) if kind.startswith("plane") else (
            rng.choice((1, 1, 2, 3)) if std == "PDS3" else 1)
        lines, samples = rng.randrange(1, 4), rng.randrange(1, 4)
        if kind.startswith("plane") and planes == lines:
            lines += 1
        # factors and offsets
        ints = kind in ("int", "units") and (not isf or rng.random() < .5)
        if kind in ("planes", "plane-factor", "plane-offset"):
            ints = rng.random() < .5

        def factor():
            if ints:
                return rng.choice((1, 1, 2, 3, -1, 10, 100, 256, 300, 70000,
                                   -5) if not isf else (1, 2, 3, -1, -4))
            return rng.choice((0.5, 0.25, 2.0, -1.0, 0.125, 1.5, 3.0, 1.0))

        def offset():
            if ints:
                return rng.choice((0, 0, 1, 5, -1, -128, 255, 1000, -30000,
                                   70000) if not isf else (0, 1, -7, 10))
            return rng.choice((0.0, 0.5, 0.25, -3.5, 10.0, 0.015625, 100.0))

        f, o = ("none", []), ("none", [])
        if kind in ("int", "real", "units"):
            which = rng.choice(("both", "both", "f", "o"))
            if which != "o":
                f = ("num", [factor()])
            if which != "f":
                o = ("num", [offset()])
        elif kind == "na":
            f, o = rng.choice((
                (("na", []), ("na", [])), (("na", []), ("num", [offset()])),
                (("num", [factor()]), ("na", []))))
        elif kind in ("planes", "plane-factor", "plane-offset"):
            f = ("num", [factor() for _ in range(planes)])
            o = ("num", [offset() for _ in range(planes)])
            if kind == "plane-factor":
                o = rng.choice((("none", []), ("num", [offset()])))
            if kind == "plane-offset":
                f = rng.choice((("none", []), ("num", [factor()])))
        beyond = kind == "real" and dtype == "float32" and rng.random() < .4
        if beyond:  # results that 32-bit reals cannot hold
            f, o = ("num", [rng.choice((2.0, -2.0))]), ("none", [])
        real = any(isinstance(x, float) for x in f[1] + o[1])
        plain = not f[1] and not o[1]
        pow2 = not o[1] and all(
            x in (2.0, -2.0, .5, -1.0, 2, -1) for x in f[1])
        # elements
        total = planes * lines * samples * (2 if cplx else 1)
        lim = rng.choice((5, 40, 2 ** 10))
        vals = []
        for _ in range(total):
            if isf:
                vals.append(rng.randrange(-256, 257) / 4)
            elif rng.random() < .25 and not real:
                vals.append(rng.choice((lo, hi, lo + 1, hi - 1)))
            else:
                v = rng.randrange(-lim, lim + 1)
                vals.append(min(hi, max(lo, v)))
        if isf and not cplx and (
                beyond or rng.random() < .3 and (plain or pow2)):
            nxt = float(np.nextafter(np.float32(1e32), np.float32(0)))
            vals[rng.randrange(total)] = rng.choice(
                (3e38, -3e38, 2e38) if beyond
                else (nxt, -nxt, 1e31, 3e38, -3e38) if dtype == "float32"
                else (1e32, -1e32))
            if dtype == "float32":
                vals = [struct.unpack(">f", struct.pack(">f", v))[0]
                        for v in vals]
        if sp in ("implicit", "both"):
            for _ in range(rng.choice((1, 2, 3))):
                x = rng.choice(IMPLICIT[dtype])
                if std == "PDS4" and isf:
                    break
                vals[rng.randrange(total)] = x
        consts = []
        crism = std == "PDS3" and self.id == "C21" and rng.random() < .06
        if crism and isf:
            return None
        if crism and hi >= 65535:
            vals[rng.randrange(total)] = 65535
        if sp in ("explicit", "both"):
            keys = rng.sample(KEYS if std == "PDS3" else K4,
                              rng.choice((1, 1, 2, 3)))
            if std == "PDS3":
                keys += rng.sample(DECOYS, rng.choice((0, 0, 1, 2)))
            rng.shuffle(keys)
            for k in keys:
                finite = [v for v in vals if not isf or math.isfinite(v)]
                if std == "PDS3" and rng.random() < .12:
                    consts.append((k, rng.choice(
                        ('"UNK"', '"N/A"', "UNK", "N/A", '"NULL"')), None))
                    continue
                names = k not in DECOYS and not k.startswith("valid")
                if isf and (names or plain) and rng.random() < .35:
                    text, v = self.decimal(rng, dtype)
                    vals[rng.randrange(total)] = v
                elif rng.random() < .2 or not finite:
                    v = rng.randrange(3, 90)
                    text = str(v)
                else:
                    v = rng.choice(finite)
                    text = self.spell(rng, v, std, isf)
                consts.append((k, text, v))
        f32ok = all(abs(v) <= 2 ** 10 for v in vals if not isf) and not (
            isf and any(math.isfinite(v) and abs(v) > 64 for v in vals))
        c = dict(std=std, dtype=dtype, complex=cplx, crism=crism,
                 planes=planes, f=f, o=o,
                 lines=lines, samples=samples, vals=vals, consts=consts,
                 f32ok=f32ok,
                 shape=([planes] if planes > 1 else []) + [lines, samples])
        return c if self.feasible(c, isf, real) else None

    @staticmethod
    def feasible(c, isf, real):
        if isf:
            return True
        per = len(c["vals"]) // c["planes"]
        fs, os_ = (t[1] or [z] for t, z in ((c["f"], 1), (c["o"], 0)))
        everything = []
        for i, v in enumerate(c["vals"]):
            p = i // per
            f, o = (t[p if len(t) > 1 else 0] for t in (fs, os_))
            everything += [v, v * f + o]
        if real:
            return all(abs(v) < 2 ** 40 for v in everything)
        lo, hi = min(everything), max(everything)
        if max(len(fs), len(os_)) > 1:
            # planes are brought to a common type afterwards
            if c["dtype"] == "uint64":
                return lo >= 0 and hi < 2 ** 64
            return lo >= -2 ** 63 and hi < 2 ** 63
        return (lo >= 0 and hi < 2 ** 64) or (
            lo >= -2 ** 63 and hi < 2 ** 63)

    @staticmethod
    def decimal(rng, dtype):
        text = "%s%d.%02dE+%d" % (rng.choice(("", "-")), rng.randrange(1, 10),
                                  rng.randrange(100), rng.randrange(12, 36))
        v = struct.unpack(">" + FMT[dtype],
                          struct.pack(">" + FMT[dtype], float(text)))[0]
        return text, v

    @staticmethod
    def spell(rng, v, std, isf):
        if isf:
            return repr(float(v))
        if std == "PDS4":
            return str(v)
        r = rng.random()
        if r < .1 and v >= 0:
            return "16#%X#" % v
        if r < .2 and abs(v) < 2 ** 50:
            return "%d.0" % v
        if r < .3:
            return "%d <DN>" % v
        return str(v)

    def write(self, c, d, rng):
        order = rng.choice("<>")
        dt = c["dtype"]
        body = b"".join(struct.pack(order + FMT[dt], v) for v in c["vals"])
        pad = rng.randrange(0, 9)
        (d / "x.dat").write_bytes(b"h" * (pad + 3) + body + b"tail")
        at = pad + 3
        if c["std"] == "PDS4":
            t = PDS4[dt].format({"<": "LSB", ">": "MSB"}[order])
            el = ""
            for tag, (k, v) in (("scaling_factor", c["f"]),
                                ("value_offset", c["o"])):
                if v:
                    el += f"<{tag}>{v[0]!r}</{tag}>"
            sp = "".join(f"<{k}>{text}</{k}>" for k, text, _ in c["consts"])
            if sp:
                sp = f"<Special_Constants>{sp}</Special_Constants>"
            (d / "x.xml").write_text(XML.format(
                fn="x.dat", at=at, t=t, el=el, sp=sp, lines=c["lines"],
                samples=c["samples"]))
            return d / "x.xml", "PIX"
        name = rng.choice(("IMAGE", "IMAGE", "BROWSE_IMAGE", "X_IMAGE"))
        defn = [("LINES", c["lines"]), ("LINE_SAMPLES", c["samples"]),
                ("SAMPLE_BITS", 8 * SIZE[dt]),
                ("SAMPLE_TYPE", rng.choice(PDS3[(dt[0], order)]))]
        if c["planes"] > 1:
            defn += [("BANDS", c["planes"]),
                     ("BAND_STORAGE_TYPE", "BAND_SEQUENTIAL")]
        for key, (k, v) in (("SCALING_FACTOR", c["f"]), ("OFFSET", c["o"])):
            if k == "na":
                defn.append((key, pds3.raw(rng.choice(
                    ("N/A", '"N/A"', "NULL", '"NULL"', '""')))))
            elif len(v) > 1:
                defn.append((key, v))
            elif k == "num":
                unit = " <W>" if c["f"][0] == "num" and rng.random() < .3 \
                    else ""
                defn.append((key, pds3.raw(f"{v[0]!r}{unit}")))
        extra = [(k, pds3.raw(text)) for k, text, _ in c["consts"]]
        defn += extra
        head = defn[:]
        rng.shuffle(head)
        items = [("INSTRUMENT_ID", pds3.q("CRISM" if c["crism"] else "X"))]
        if c["crism"]:
            items.append(("INSTRUMENT_NAME", pds3.q(
                "COMPACT RECONNAISSANCE IMAGING SPECTROMETER FOR MARS")))
        items += [
            ("^IMAGE_HEADER", pds3.raw('("x.dat", 1 <BYTES>)')),
            ("^" + name, pds3.raw(f'("x.dat", {at + 1} <BYTES>)')),
            ("OBJECT", "IMAGE_HEADER", [("BYTES", at),
                                        ("HEADER_TYPE", "TEXT")]),
            ("OBJECT", name, head)]
        (d / "x.lbl").write_bytes(pds3.label(items))
        return d / "x.lbl", name

    def timeout_events(self, scn):
        return [dict(op="item", obs={"kind": "timeout"})]

    def nontrivial(self, evs):
        return any(e["op"] == "get" for e in evs)

    def canary(self, evs, rng):
        for e in evs:
            if e["op"] == "get" and e["obs"]["kind"] == "array":
                o = e["obs"]
                k = [i for i in range(len(o["data"])) if not o["mask"][i]
                     and o["data"][i]["s"] in (-1, 1)]
                m = [i for i in range(len(o["data"])) if o["mask"][i]]
                if self.id == "C21" and m:
                    o["mask"][rng.choice(m)] = 0
                elif k and rng.random() < .7:
                    o["data"][rng.choice(k)]["l"][0] ^= 1
                elif k and not e["inplace"] and \
                        e["held"]["data"][k[0]]["s"] in (-1, 1):
                    e["held"]["data"][k[0]]["s"] *= -1
                else:
                    continue
                return evs
        return None


class C20(ScaleProp):
    id = "C20"


class C21(ScaleProp):
    id = "C21"

    def random_scenarios(self):
        rng, out = self.rng, []
        for _ in range(600 if self.quick else 8000):
            std = rng.choice(("PDS3", "PDS3", "PDS3", "PDS4"))
            kind = rng.choice(
                ("none", "none", "int", "real", "units", "planes")
                if std == "PDS3" else ("none", "int", "real"))
            out.append(self.one(std, kind, rng.choice(
                ("explicit", "implicit", "both", "both")),
                rng.choice((["get"], ["get", "get"], ["getin", "get"]))))
        return out
