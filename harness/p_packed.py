"""C26 compressed files."""
from __future__ import annotations

import json
import random
import warnings
import zipfile
from pathlib import Path

import numpy as np

import pdr
from pdr.loaders._helpers import count_from_bottom_of_file
from pdr.np_utils import np_from_buffered_io
from pdr.utils import decompress, head_file

from . import pds3, project
from .core import Prop
from .p_files import store

SUFFIXES = [".gz", ".bz2", ".zip", ".GZ", ".Bz2", ".ZIP"]
# whose products are read both ways, and how often
OF = {"C12": 4, "C13": 4, "C14": 2, "C15": 4, "C16": 3, "C17": 3, "C18": 5,
      "C19": 5, "C29": 5}


class Packed(Prop):
    id = "C26"
    module = "Trace_Packed"
    chunk_min = 60
    assumptions = (
        "products are opened by their (possibly compressed) label or by a "
        "file with an attached label; desktop images and PDS4 products are "
        "read by libraries that do not decompress and are not covered",)
    level_note = (
        "TLC explores every sequence of questions up to the bound on a "
        "decompressing stream; they are replayed on real handles of all "
        "suffixes with blocks of several sizes (seeded sample), and seeded "
        "products of the checks C12-C19 and C29 are read plain and packed")

    def __init__(self, *a):
        super().__init__(*a)
        n = (3, 2) if self.quick else (3, 3)
        self.models = [("MC_Packed", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" MaxSize = {n[0]}\n MaxOps = {n[1]}\n Chunk = 2\n"
            "INVARIANTS Consistent LikeAFile Emit\n"), "stream")]

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        n = 1200 if self.quick else 12000
        out = []
        for s in self.rng.sample(scns, min(n, len(scns))):
            out.append(dict(what="ops", size=s["size"], ops=s["ops"],
                            **self.common()))
        return out

    def common(self):
        rng = self.rng
        return dict(suffix=rng.choice(SUFFIXES), named=rng.random() < 0.5,
                    packlabel=rng.random() < 0.15,
                    seed=rng.randrange(1 << 30),
                    block=rng.choice((1, 1, 7, 4096, 40000)))

    def random_scenarios(self):
        from .registry import get
        rng = self.rng
        out = []
        per = 12 if self.quick else 120
        for pid, weight in sorted(OF.items()):
            prop = get(pid)("quick", rng.randrange(1 << 30))
            if pid == "C14":
                scns = [prop.one(p, t, b) for p, t, b in (
                    ("image", "IBM_REAL", 32), ("column", "VAX_REAL", 32),
                    ("items", "LSB_INTEGER", 16), ("qube", "PC_REAL", 64),
                    ("image", "VAX_REAL", 32), ("column", "BOOLEAN", 8))
                    for _ in range(per)]
            else:
                scns = prop.random_scenarios()
            scns = [s for s in scns if not s.get("finding")
                    and s.get("what") != "big"]
            for s in rng.sample(scns, min(len(scns), weight * per)):
                if s.get("via"):
                    s = dict(s, via="label")
                out.append(dict(what="product", of=pid, scn=s,
                                **self.common()))
        for i in range(12 if self.quick else 200):
            out.append(dict(what="blocks", **self.common()))
            out.append(dict(what="bottom", **self.common()))
            out.append(dict(what="fits", **self.common()))
        return out

    def execute(self, scn, d):
        return getattr(self, "do_" + scn["what"])(scn, d)

    # -- questions to handles ----------------------------------------------

    def do_ops(self, scn, d):
        rng = random.Random(scn["seed"])
        k = scn["block"]
        blocks = [bytes([i]) + rng.randbytes(k - 1) if rng.random() < 0.5
                  else bytes([i]) * k for i in range(1, scn["size"] + 1)]
        ids = {b: i for i, b in enumerate(blocks, 1)}
        fn = d / ("f.dat" + scn["suffix"])
        store(fn, b"".join(blocks))

        def cut(x):
            x = bytes(x)
            return [ids.get(x[i:i + k], -1) for i in range(0, len(x), k)]
        answers = []
        f = decompress(fn)
        try:
            for q in scn["ops"]:
                op = q["op"]
                if op == "seek":
                    f.seek(q["a"] * k)
                    answers.append([])
                elif op == "read":
                    answers.append(cut(f.read(q["n"] * k)))
                elif op == "rest":
                    answers.append(cut(f.read()))
                elif op == "end":
                    n = f.seek(0, 2)
                    answers.append([n // k if n % k == 0 else -1])
                elif op == "array":
                    # elements of w blocks, partly elements of a number
                    dt = np.dtype(f"V{q['w'] * k}")
                    if k in (1,) and rng.random() < 0.5:
                        dt = np.dtype(f">u{q['w']}")
                    if rng.random() < 0.3:
                        dt = dt.str
                    a = np_from_buffered_io(f, dtype=dt, offset=q["a"] * k,
                                            count=q["n"])
                    answers.append(cut(a.tobytes()))
                elif op == "head":
                    answers.append(cut(head_file(
                        f, nbytes=q["n"] * k, offset=q["a"] * k).read()))
                elif op == "bottom":
                    n = count_from_bottom_of_file(str(fn), q["n"], k)
                    answers.append([n // k if n % k == 0 else -99])
        except Exception as e:
            answers.append([str(e)[:100]])
        finally:
            f.close()
        return [dict(what="ops", size=scn["size"], ops=scn["ops"],
                     suffix=scn["suffix"], block=k, answers=answers)]

    # -- products, plain and packed ----------------------------------------

    def pack(self, scn, fn):
        """compress the files of a product in place; its new entry"""
        fn = Path(fn)
        d = fn.parent
        files = sorted(f for f in d.iterdir() if f.is_file())
        labels = [f for f in files if f == fn]
        if len(files) == 1 or scn["packlabel"]:
            labels = []
        for f in files:
            if f in labels:
                continue
            if f.suffix.lower() in (".gz", ".bz2", ".zip"):
                continue
            if "." not in f.name and not labels:
                continue
            g = f.with_name(f.name + scn["suffix"])
            store(g, f.read_bytes())
            f.unlink()
            # (the suffix of a name that has no other is part of its stem)
            if (scn["named"] or "." not in f.name) and labels:
                fn.write_bytes(fn.read_bytes().replace(
                    b'"%s"' % f.name.encode(), b'"%s"' % g.name.encode()))
            if f == fn:
                fn = g
        return fn

    def do_product(self, scn, d):
        from .registry import get
        prop = get(scn["of"])("quick", 1)
        real = pdr.read
        seen = []
        for i, packed in enumerate((False, True)):
            sub = d / str(i)
            sub.mkdir()

            def entry(fn, *a, **kw):
                if packed:
                    fn = self.pack(scn, fn)
                return real(str(fn), *a, **kw)
            pdr.read = entry
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    evs = prop.execute(json.loads(json.dumps(scn["scn"])),
                                       sub)
            finally:
                pdr.read = real
            seen.append([e.get("obs") for e in evs])
        return [dict(what="product", of=scn["of"], suffix=scn["suffix"],
                     plain={"kind": str(a.get("kind")), "obs": a},
                     packed={"kind": str(b.get("kind")), "obs": b})
                for a, b in zip(*seen)]

    def twice(self, scn, d, write, name):
        """write(dir) makes a product and returns its entry"""
        seen = []
        for packed in (False, True):
            sub = d / str(int(packed))
            sub.mkdir()
            fn = write(sub)
            if packed:
                fn = self.pack(scn, fn)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                seen.append(project.observe(lambda: pdr.read(str(fn))[name]))
        return [dict(what="product", of=scn["what"], suffix=scn["suffix"],
                     **{k: {"kind": o["kind"], "obs": o}
                        for k, o in zip(("plain", "packed"), seen)})]

    def do_blocks(self, scn, d):
        """label blocks for the two forms of a file"""
        rng = random.Random(scn["seed"])
        n = rng.randrange(1, 5)
        body = rng.randbytes(6 * n)
        seen = []
        for packed in (False, True):
            sub = d / str(int(packed))
            sub.mkdir()
            comp = "A" + scn["suffix"] if rng.random() < 0.5 else (
                "A.IMG" + scn["suffix"])
            store(sub / comp, body)
            if not packed:
                (sub / "A.IMG").write_bytes(body)
            (sub / "A.LBL").write_bytes(pds3.label([
                ("RECORD_TYPE", "UNDEFINED"),
                ("OBJECT", "COMPRESSED_FILE", [
                    ("FILE_NAME", pds3.q(comp)),
                    ("RECORD_TYPE", "UNDEFINED"),
                    ("ENCODING_TYPE", "ZIP"),
                    ("UNCOMPRESSED_FILE_NAME", pds3.q("A.IMG"))]),
                ("OBJECT", "UNCOMPRESSED_FILE", [
                    ("FILE_NAME", pds3.q("A.IMG")),
                    ("RECORD_TYPE", "UNDEFINED"),
                    ("^IMAGE", pds3.q("A.IMG")),
                    ("OBJECT", "IMAGE", [
                        ("LINES", n), ("LINE_SAMPLES", 3),
                        ("SAMPLE_BITS", 16),
                        ("SAMPLE_TYPE", "MSB_INTEGER")])])]))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                seen.append(project.observe(
                    lambda: pdr.read(str(sub / "A.LBL"))["IMAGE"]))
        return [dict(what="product", of="blocks", suffix=scn["suffix"],
                     **{k: {"kind": o["kind"], "obs": o}
                        for k, o in zip(("plain", "packed"), seen)})]

    def do_bottom(self, scn, d):
        """a table located from the bottom of its file"""
        rng = random.Random(scn["seed"])
        rows, w = rng.randrange(1, 6), rng.choice((2, 4, 8))
        body = rng.randbytes(rng.randrange(1, 50)) + b"\0" * 300 + \
            rng.randbytes(rows * w)
        at = rng.randrange(2, 9)

        def write(sub):
            (sub / "t.dat").write_bytes(body)
            (sub / "t.lbl").write_bytes(pds3.label([
                ("RECORD_TYPE", "UNDEFINED"),
                ("^TABLE", pds3.raw(f'("t.dat", {at})')),
                ("OBJECT", "TABLE", [
                    ("INTERCHANGE_FORMAT", "BINARY"), ("ROWS", rows),
                    ("ROW_BYTES", w), ("COLUMNS", 1),
                    ("OBJECT", "COLUMN", [
                        ("NAME", "X"), ("DATA_TYPE", "MSB_INTEGER"),
                        ("START_BYTE", 1), ("BYTES", w)])])]))
            return sub / "t.lbl"
        return self.twice(scn, d, write, "TABLE")

    def do_fits(self, scn, d):
        """FITS files behind PDS3 labels and alone"""
        from astropy.io import fits
        rng = random.Random(scn["seed"])
        a = np.frombuffer(rng.randbytes(24), ">i2").reshape(3, 4)
        labelled = rng.random() < 0.5
        if not labelled:     # the suffix is how such files are recognized
            scn = dict(scn, suffix=rng.choice((".gz", ".GZ")))

        def write(sub):
            fits.HDUList([fits.PrimaryHDU(a)]).writeto(sub / "f.fits")
            if not labelled:
                return sub / "f.fits"
            (sub / "f.lbl").write_bytes(pds3.label([
                ("RECORD_TYPE", "FIXED_LENGTH"), ("RECORD_BYTES", 2880),
                ("^HEADER", pds3.raw('("f.fits", 1)')),
                ("^IMAGE", pds3.raw('("f.fits", 2)')),
                ("OBJECT", "HEADER", [("BYTES", 2880),
                                      ("HEADER_TYPE", "FITS")]),
                ("OBJECT", "IMAGE", [
                    ("LINES", 3), ("LINE_SAMPLES", 4), ("SAMPLE_BITS", 16),
                    ("SAMPLE_TYPE", "MSB_INTEGER")])]))
            return sub / "f.lbl"
        return self.twice(scn, d, write, "IMAGE" if labelled else "PRIMARY")

    def timeout_events(self, scn):
        if scn["what"] == "ops":
            return [dict(what="ops", size=scn["size"], ops=scn["ops"],
                         answers=[])]
        return [dict(what="product", of=scn.get("of", ""),
                     plain={"kind": "timeout", "obs": {}},
                     packed={"kind": "timeout", "obs": {}})]

    def nontrivial(self, evs):
        return evs[0]["what"] == "ops" or evs[0]["plain"]["kind"] not in (
            "exc", "other", "none")

    def canary(self, evs, rng):
        e = evs[0]
        if e["what"] == "ops":
            a = [x for x in e["answers"] if x]
            if not a:
                return None
            x = rng.choice(a)
            x[rng.randrange(len(x))] = 77
        else:
            e["packed"] = {"kind": "array", "obs": {"kind": "array",
                                                    "dtype": "?"}}
        return evs
