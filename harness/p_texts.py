"""C19 headers and text objects."""
from __future__ import annotations

import random
import warnings

import pdr

from . import pds3, project
from .core import Prop

PIECES = {"crlf": b"A\r\n", "lf": b"BC\n", "cr": b"D\r", "empty": b"\r\n",
          "wide": b"\xc3\xa9\n", "bare": b"\n"}
HEADERS = ["HEADER", "TABLE_HEADER", "IMAGE_HEADER", "SPREADSHEET_HEADER",
           "ANCILLARY_HEADER", "HISTORY_HEADER", "IMAGE_HISTORY_HEADER",
           "SERIES_HEADER", "FILE_HEADER", "QUBE_HEADER"]
TEXTS = ["TEXT", "README_TEXT", "DESCRIPTION", "DATA_DESCRIPTION",
         "INSTRUMENT_DESC", "TEXT_DOCUMENT", "MAP_PROJECTION_CATALOG",
         "DESC_TEXT"]
CHARS = ["a", "Z", " ", "=", '"', "\t", "/*", "END", "\u00e9", "\u20ac",
         "\U0001F600", "\u0800", "\x7f", ";", "\u2028", "\x0b", "\x0c", "\x85"]


def codes(v):
    if isinstance(v, str):
        return {"kind": "codes", "codes": [ord(c) for c in v]}
    return {"kind": "none" if v is None else type(v).__name__}


class Texts(Prop):
    id = "C19"
    module = "Trace_Texts"
    chunk_min = 60
    level_note = (
        "TLC explores every arrangement of a few lines with every kind of "
        "ending before, in and after a header; those and seeded larger ones "
        "(sampled) are read from real products")

    def __init__(self, *a):
        super().__init__(*a)
        base = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
        inv = "INVARIANTS Exact CanonOK Emit\n"
        p = ', '.join(f'"{x}"' for x in PIECES)
        n = (2, 2, 1) if self.quick else (2, 3, 1)
        self.models = [("MC_Texts", base + (
            f" Pieces = {{{p}}}\n MaxBefore = {n[0]}\n MaxHeader = {n[1]}\n"
            f" MaxAfter = {n[2]}\n") + inv, "lines")]

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        n = 300 if self.quick else 6000
        if len(scns) > n:
            scns = self.rng.sample(scns, n)
        return [dict(s, what="model", seed=self.rng.randrange(1 << 30))
                for s in scns]

    def random_scenarios(self):
        rng = self.rng
        out = [dict(what=rng.choice(("header", "header", "text")),
                    seed=rng.randrange(1 << 30))
               for _ in range(700 if self.quick else 9000)]
        # (at the limit of what is read of a header, and above)
        out += [dict(what="big", size=n, seed=rng.randrange(1 << 30))
                for n in ((79_999, 80_003) if self.quick else
                          (70_001, 79_999, 80_000, 80_001, 90_000, 160_003))]
        return out

    def read(self, fn, name):
        # how a product is read first, and the object then
        data = pdr.read(str(fn))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            obs = project.observe(lambda: data[name], codes)
        mine = [x for x in w if issubclass(x.category, UserWarning)]
        return obs, bool(mine)

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        if scn["what"] == "text":
            return self.textfile(rng, d)
        lab = dict(ptr="file", at=1, recbytes=0, stream=True, bytes=0,
                   records=0, blockrec=0)
        name = rng.choice(HEADERS)
        if scn["what"] == "model":
            b, h, a = (b"".join(PIECES[p] for p in scn[k])
                       for k in ("before", "head", "after"))
            lab["ptr"] = scn["ptr"]
            lab["at"] = (len(b) if scn["ptr"] == "byte"
                         else len(scn["before"])) + 1
            if scn["len"] == "bytes":
                lab["bytes"] = len(h)
            else:
                lab["records"] = len(scn["head"])
        elif scn["what"] == "big":
            b = self.noise(rng, rng.randrange(0, 40))
            h = bytes(rng.choice(b"abc \n") for _ in range(scn["size"]))
            a = b"after"
            lab.update(ptr="byte", at=len(b) + 1, bytes=len(h))
        else:
            b, h, a = self.piece(rng, lab)
        head = [("RECORD_TYPE", "STREAM" if lab["stream"] else
                 "FIXED_LENGTH")]
        if lab["recbytes"]:
            head.append(("RECORD_BYTES", lab["recbytes"]))
        elif lab["stream"] and rng.random() < 0.2:
            head.append(("RECORD_BYTES", pds3.q("")))
        block = []
        if lab["bytes"]:
            block.append(("BYTES", lab["bytes"]))
            if rng.random() < 0.3 and lab["ptr"] != "record" and \
                    not lab["records"]:
                # (a length in bytes goes before one in records)
                block.append(("RECORDS", rng.randrange(1, 9)))
        if lab["records"]:
            block.append(("RECORDS", lab["records"]))
        if lab["blockrec"]:
            block.append(("RECORD_BYTES", lab["blockrec"]))
        block.append(("HEADER_TYPE", "ASCII"))
        if rng.random() < 0.5:
            block.append(("INTERCHANGE_FORMAT", "ASCII"))
        rng.shuffle(block)
        file = b + h + a
        (d / "h.dat").write_bytes(file)
        target = {"file": '"h.dat"', "record": f'("h.dat", {lab["at"]})',
                  "byte": f'("h.dat", {lab["at"]} <BYTES>)'}[lab["ptr"]]
        (d / "h.lbl").write_bytes(pds3.label(
            head + [("^" + name, pds3.raw(target)), ("OBJECT", name, block)]))
        obs, warned = self.read(d / "h.lbl", name)
        return [dict(what="header", file=list(file), lab=lab, valid=True,
                     warned=warned, obs=obs)]

    def noise(self, rng, n, ascii_=False):
        if ascii_:
            return bytes(rng.choice(b"abcXYZ 019,=\t\"") for _ in range(n))
        return bytes(rng.choice((rng.randrange(256), 10, 13, 65, 0))
                     for _ in range(n))

    def piece(self, rng, lab):
        kind = rng.choice(("bytes", "bytes", "fixed", "fixed", "blockrec",
                           "lines", "lines", "streambytes", "unknown"))
        if kind == "lines":
            def lines(n):
                return b"".join(
                    self.noise(rng, rng.randrange(1, 30), True)
                    + rng.choice((b"\r\n", b"\n", b"\r\n", b"\r"))
                    for _ in range(n))
            lab["records"] = rng.randrange(1, 6)
            n = rng.choice((0, 0, 1, 3))
            b, h = lines(n), lines(lab["records"])
            if n or rng.random() < 0.5:
                lab.update(ptr="record", at=n + 1)
            a = rng.choice((b"", b"more", rng.randbytes(60)))
            if h.endswith(b"\r") and a.startswith(b"\n"):
                a = b"z" + a
            return b, h, a
        if kind == "unknown":
            # no length, or no position
            lab.update(stream=rng.random() < 0.5)
            if not lab["stream"]:
                lab["recbytes"] = 40
            lab.update(ptr="byte", at=rng.randrange(1, 50))
            return b"", self.noise(rng, 60), b""
        b = self.noise(rng, rng.choice((0, 1, 7, 40)))
        h = self.noise(rng, rng.randrange(1, 90))
        a = self.noise(rng, rng.choice((0, 5, 80)))
        if kind in ("fixed", "blockrec"):
            rec = rng.choice((1, 2, 16, 33, 80))
            lab["stream"] = kind == "blockrec" and rng.random() < 0.3
            lab["recbytes"] = rec
            if kind == "blockrec":
                lab["recbytes"] = rng.choice((rec, rec + 3, 5))
                lab["blockrec"] = rec
            n, m = rng.choice((0, 1, 2, 5)), rng.choice((1, 1, 2, 3))
            b, h = self.noise(rng, rec * n), self.noise(rng, rec * m)
            if rng.random() < 0.7:
                lab.update(ptr="record", at=n + 1)
            elif rng.random() < 0.5:
                lab.update(ptr="byte", at=len(b) + 1)
            else:
                b = b""
            if rng.random() < 0.7:
                lab["records"] = m
            else:
                h = h[:rng.randrange(1, len(h) + 1)]
                lab["bytes"] = len(h)
                if rng.random() < 0.5:
                    lab["records"] = m
            return b, h, a
        lab["bytes"] = len(h)
        lab["stream"] = kind == "streambytes"
        if not lab["stream"]:
            lab["recbytes"] = rng.choice((10, 80))
        if b or rng.random() < 0.5:
            lab.update(ptr="byte", at=len(b) + 1)
        return b, h, a

    def textfile(self, rng, d):
        valid = rng.random() < 0.9
        pieces = []
        for _ in range(rng.randrange(0, 9)):
            pieces += [rng.choice(CHARS) for _ in range(rng.randrange(0, 12))]
            pieces.append(rng.choice(("\r\n", "\r\n", "\n", "\r", "\n\r",
                                      "")))
        content = "".join(pieces).encode("utf-8")
        ext = rng.choice((".txt", ".TXT", ".asc", ".cat", ".html", ""))
        why = None
        if not valid:
            why = rng.choice(("encoding", "pdf", "missing"))
            if why == "encoding":
                content += rng.choice((b"\xff\xfe", b"\xc3(", b"\x80"))
            elif why == "pdf":
                ext = ".pdf"
        fn = "notes" + ext
        if why != "missing":
            (d / fn).write_bytes(content)
        name = rng.choice(TEXTS)
        (d / "p.lbl").write_bytes(pds3.label([
            ("RECORD_TYPE", "STREAM"), ("^" + name, pds3.q(fn))]))
        obs, warned = self.read(d / "p.lbl", name)
        lab = dict(ptr="file", at=1, recbytes=0, stream=True, bytes=0,
                   records=0, blockrec=0)
        return [dict(what="text", file=list(content), lab=lab, valid=valid,
                     warned=warned, obs=obs)]

    def timeout_events(self, scn):
        return [dict(what="header", file=[], lab=dict(
            ptr="file", at=1, recbytes=0, stream=True, bytes=1, records=0,
            blockrec=0), valid=True, warned=False, obs={"kind": "timeout"})]

    def canary(self, evs, rng):
        e = evs[0]
        o = e["obs"]
        if o["kind"] != "codes":
            e["warned"] = False
            return evs
        what = rng.choice(("drop", "add", "change", "warn"))
        if what == "warn":
            e["warned"] = True
        elif what == "drop" and o["codes"]:
            o["codes"].pop(rng.choice((0, -1)))
        elif what == "change" and o["codes"]:
            o["codes"][rng.randrange(len(o["codes"]))] += 1
        else:
            o["codes"].append(13)
        return evs
