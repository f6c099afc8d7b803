"""C14 sample types."""
from __future__ import annotations

import random
import warnings

import pdr

from . import pds3, project
from .core import Prop
from .p_raster import BST, vaxbytes
from .p_table import cellbytes

VALS = (0, 1, 127, 128, 255)


def samples(rng, t, n, count):
    """stored samples: typed if the type has rules about ordinary values,
    otherwise boundary patterns and random bytes"""
    if t in ("VAX_REAL", "IBM_REAL") and not (t == "VAX_REAL" and n != 4):
        if n in (4, 8):
            return cellbytes(rng, t, n, count)
    if t in ("CHARACTER", "DATE", "TIME", "BOOLEAN"):
        return cellbytes(rng, t, n, count)
    out = []
    for i in range(count):
        r = rng.random()
        if r < 0.4:
            out.append(bytes(rng.choice(VALS) for _ in range(n)))
        elif r < 0.55:
            out.append(bytes([rng.choice(VALS)]) * n)
        else:
            out.append(rng.randbytes(n))
    return out


class Types(Prop):
    id = "C14"
    module = "Trace_Types"
    chunk_min = 120
    assumptions = (
        "VAX reals with exponent fields 1 and 2 (subnormal as IEEE singles) "
        "and reserved operands are not generated",
        "8-byte IBM reals have at most 51 significant bits")
    level_note = (
        "every (place, type, width) combination of the specification up to "
        "the bound is replayed; contents are boundary byte patterns and "
        "seeded random bytes (sampled)")

    def __init__(self, *a):
        super().__init__(*a)
        bits = 80 if self.quick else 136
        vals = ("{0, 1, 127, 128, 255}" if self.quick
                else "{0, 1, 2, 64, 127, 128, 129, 254, 255}")
        self.models = [("MC_Types", (
            f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" MaxBits = {bits}\n ByteVals = {vals}\n"
            "INVARIANTS DecodeOK IntOK VaxOK Emit\n"), "types")]

    def from_model(self, scns):
        out = []
        for s in sorted(scns, key=lambda s: sorted(
                (k, str(v)) for k, v in s.items())):
            for _ in range((2 if self.quick else 8) if s["ok"] else 1):
                out.append(self.one(s["place"], s["type"], s["bits"]))
        return out

    def random_scenarios(self):
        return []

    def one(self, place, t, bits):
        rng = self.rng
        return dict(place=place, type=t, bits=bits,
                    seed=rng.randrange(1 << 30), style=rng.randrange(1 << 12),
                    items=rng.randrange(2, 5))

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        place, t, bits = scn["place"], scn["type"], scn["bits"]
        n = max(1, -(-bits // 8))
        count = rng.choice((1, 2, 6, 12, 12, 24))
        k = scn["items"]
        if place == "items":
            count = k * rng.choice((1, 3, 5))
        raws = samples(rng, t, n, count)
        start = rng.choice((0, 0, 3, 17))
        body = b"".join(raws)
        st = scn["style"]
        spelled = t
        if st & 1 and " " not in t:
            spelled = t.replace("_", " ")
        spelled = pds3.q(spelled) if " " in spelled or "/" in spelled or (
            st & 2) else spelled
        if place == "image":
            lines = rng.choice([x for x in (1, 2, 3) if count % x == 0])
            name = "IMAGE"
            block = [("LINES", lines), ("LINE_SAMPLES", count // lines),
                     ("SAMPLE_BITS", bits), ("SAMPLE_TYPE", spelled)]
        elif place == "qube":
            name = "QUBE"
            block = [("AXES", 3),
                     ("AXIS_NAME", pds3.raw("(SAMPLE,LINE,BAND)")),
                     ("CORE_ITEMS", (count, 1, 1)),
                     ("CORE_ITEM_BYTES", n), ("CORE_ITEM_TYPE", spelled)]
        else:
            name = "TABLE"
            items = k if place == "items" else 1
            col = [("NAME", "X"), ("DATA_TYPE", spelled), ("START_BYTE", 1),
                   ("BYTES", n * items)]
            if place == "items":
                col += [("ITEMS", items), ("ITEM_BYTES", n)]
                if st & 4:
                    col.append(("ITEM_OFFSET", n))
            block = [("INTERCHANGE_FORMAT", "BINARY"),
                     ("ROWS", count // items), ("ROW_BYTES", n * items),
                     ("COLUMNS", 1), ("OBJECT", "COLUMN", col)]
        if st & 8 and place in ("image", "qube"):
            rng.shuffle(block)
        (d / "d.dat").write_bytes(rng.randbytes(start) + body
                                  + rng.randbytes(rng.randrange(9)))
        (d / "d.lbl").write_bytes(pds3.label([
            ("RECORD_TYPE", "UNDEFINED"),
            ("^" + name, pds3.raw(f'("d.dat", {start + 1} <BYTES>)')),
            ("OBJECT", name, block)]))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            obs = project.observe(
                lambda: pdr.read(str(d / "d.lbl"))[name])
        return [dict(place=place, type=t, bits=bits,
                     items=k if place == "items" else 1,
                     raws=[list(r) for r in raws], obs=obs,
                     warned=any(name in str(x.message) for x in w))]

    def timeout_events(self, scn):
        return [dict(place=scn["place"], type=scn["type"], bits=scn["bits"],
                     items=1, raws=[], obs={"kind": "timeout"},
                     warned=False)]

    def canary(self, evs, rng):
        e = evs[0]
        o = e["obs"]
        if o["kind"] == "other":
            if rng.random() < 0.5:
                e["warned"] = False
            else:
                e["obs"] = {"kind": "array", "dtype": "u1", "shape": [1, 1],
                            "data": [[0]]}
            return evs
        if o["kind"] == "array":
            data = o["data"]
        elif o["kind"] == "table":
            c = rng.choice(o["cols"])
            if c["kind"] == "num" and rng.random() < 0.3:
                c["dtype"] = {"u": "i", "i": "u", "f": "u"}[
                    c["dtype"][0]] + c["dtype"][1:]
                return evs
            if c["kind"] == "bool":
                c["data"][0][0] ^= 1
                return evs
            data = c["data"]
        else:
            return None
        if not data:
            return None
        x = rng.randrange(len(data))
        if not data[x]:
            data[x] = [65]
            return evs
        data[x][0] ^= 1 << rng.randrange(7)
        if "IBM" in e["type"]:     # (+0 and -0 are the same number)
            data[x][1] ^= 64
        return evs
