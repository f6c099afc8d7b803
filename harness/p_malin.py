"""C38 images compressed on board by Malin's cameras."""
from __future__ import annotations

import random
import re
import struct
import warnings
from pathlib import Path

import numpy as np

from . import project
from .core import Prop

TEXT = (Path(__file__).parent.parent / "spec" / "MalinCodes.tla").read_text()
GROUPS = [[int(x) for x in re.findall(r"\d+", g)]
          for g in re.findall(r"<<([\d,\s]+)>>", TEXT)]
MSL, MOC = GROUPS[0], GROUPS[1:]
assert len(MOC) == 8 and all(len(g) == 256 for g in GROUPS)


def bits(codes, values):
    return "".join(bin(codes[v])[3:] for v in values)


def packed(text, order):
    text += "0" * (-len(text) % 8)
    return bytes(int(t[::1 if order == "msb" else -1], 2) for t in
                 (text[i:i + 8] for i in range(0, len(text), 8)))


def smooth(rng, h, w):
    """an image with small and a few large differences"""
    out = np.zeros((h, w), np.int64)
    for y in range(h):
        for x in range(w):
            near = out[y, x - 1] if x else (out[y - 1, 0] if y else 100)
            out[y, x] = rng.randrange(256) if rng.random() < .04 else \
                near + rng.randrange(-4, 5)
    return out % 256


class Malin(Prop):
    id = "C38"
    module = "Trace_Malin"
    chunk_min = 12
    assumptions = (
        "complete fragments; headers at the start of MSL's .DAT files; sizes "
        "are not 0; no JPEG and no transform compression",
        "the code tables of spec/MalinCodes.tla, which were taken over from "
        "the code and checked to be complete prefix codes")
    level_note = (
        "TLC decodes the bytes of the files bit by bit with the cameras' "
        "prefix codes and undoes the predictions; images of all modes, tables, "
        "sizes and ways of splitting are written and read three times each")

    def __init__(self, *a):
        super().__init__(*a)
        deep = "FALSE" if self.quick else "TRUE"
        self.models = [("MC_Malin", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f" Deep = {deep}\nINVARIANTS PrefixFree ReadBack Emit\n"),
            "products")]

    def from_model(self, scns):
        scns = sorted(scns, key=repr)
        self.rng.shuffle(scns)
        times = 1 if self.quick else 3
        return [dict(s, seed=self.rng.randrange(1 << 30))
                for _ in range(times) for s in scns]

    def random_scenarios(self):
        return []

    # ---------------------------------------------------------------- MSL
    def msl(self, scn, d):
        rng = random.Random(scn["seed"])
        w, h, how, mode = scn["w"], scn["h"], scn["how"], scn["mode"]
        thumb = how == "thumb"
        words = [rng.randrange(1 << 24) for _ in range(16)]
        words[0] |= (0xff if thumb else 0xf7) << 24
        words[5] = (rng.randrange(256) << 24 | rng.randrange(256) << 16
                    | w // 8 << 8 | h // 8)
        words[8] = rng.randrange(256) << 16
        if mode == "pred":
            words[8] |= rng.choice((0x100, 0x200, 0x8000))
        words[9] = 255 if mode == "wide" else rng.choice((0, 254, 0x1ff))
        words[15] = 0x1010cc28
        head = struct.pack(">16I", *words)
        each = 2 if mode == "wide" else 1
        if mode == "pred":
            body = b""
            image = smooth(rng, h, w)
            for y in range(0, h, 8):
                for r, c in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    plane = image[y + r:y + 8:2, c::2].ravel()
                    diff = np.diff(plane, prepend=0) % 256
                    if how == "junk" and rng.random() < .5:
                        body += bytes(rng.randrange(1, 255) for _ in range(
                            rng.randrange(1, 13)))
                    part = b"\xff\xff\0\0" + packed(
                        bits(MSL, diff.tolist()), "msb")
                    body += part + bytes(-(len(head + body + part)) % 4)
        else:
            hh, ww, pad = h, w, 0
            if thumb and rng.random() < .8:
                fits = []
                for i in range(h, h + 8):
                    for j in range(w, w + 8):
                        for p in (32, 56):
                            n = i * j * each + p
                            if n > (w + 7) * (h + 7) * each or \
                                    n == w * h * each:
                                continue
                            same = {(a, b) for a in range(h, h + 8)
                                    for b in range(w, w + 8)
                                    if a * b * each in (n - 32, n - 56)}
                            if len(same) == 1:
                                fits.append((i, j, p))
                hh, ww, pad = rng.choice(fits)
            n = hh * ww * each
            body = bytes(rng.choice((0, 1, 255, rng.randrange(256)))
                         for _ in range(n + pad))
            if how == "short":
                body = body[:rng.choice((each, n - each, n // 2 // each * each))]
        if how == "more":
            body += bytes(rng.randrange(256)
                          for _ in range(rng.choice((1, 32, 56, 500))))
        file = head + body
        case = rng.choice((".LBL", ".lbl"))
        folder = d / rng.choice(("x", "EDR.IMG", "a.lbl", "LABELS.LBL.d"))
        folder.mkdir()
        label = folder / ("0001MR" + case)
        label.write_text("\r\n".join([
            "PDS_VERSION_ID = PDS3",
            'INSTRUMENT_HOST_NAME = "MARS SCIENCE LABORATORY"',
            "INSTRUMENT_ID = " + rng.choice(
                ("MAHLI", "MAST_LEFT", "MAST_RIGHT", "MARDI")),
            'DATA_SET_ID = "MSL-M-MAHLI-2-EDR-V1.0"',
            '^IMAGE = "0001MR.IMG"',
            "OBJECT = IMAGE", f"LINES = {h}", f"LINE_SAMPLES = {w}",
            f"SAMPLE_BITS = {8 * each}", "SAMPLE_TYPE = UNSIGNED_INTEGER",
            "END_OBJECT = IMAGE", "END", ""]))
        label.with_suffix(".DAT" if case == ".LBL" else ".dat").write_bytes(
            file)
        return dict(op="msl", file=list(file)), label

    # ---------------------------------------------------------------- MOC
    def moc(self, scn, d):
        rng = random.Random(scn["seed"])
        w, h, mode = scn["w"], scn["h"], scn["mode"]
        codes = MOC[scn["table"]]
        known = [v for v in range(256) if codes[v]]
        few = len(known) < 256
        image = smooth(rng, h, w)
        if few:
            diffs = np.array([[rng.choice(known) for _ in range(w)]
                              for _ in range(h)])
            if mode == 0:
                image = diffs
            elif mode == 1:
                image[1:] = np.cumsum(diffs, 1)[1:] % 256
            for y in range(1, h):
                if mode == 2 and y % 128:
                    image[y] = (image[y - 1] + diffs[y]) % 256
        data, text = b"", ""
        for y in range(h):
            line = image[y]
            if mode and y % 128 == 0:
                data += packed(text, "lsb")
                text = ""
                data += bytes(len(data) % 2) + b"\xca\xf0" + bytes(
                    line.tolist())
                continue
            if mode == 1:
                line = np.diff(line, prepend=0) % 256
            elif mode == 2:
                line = (line - image[y - 1]) % 256
            text += bits(codes, line.tolist())
        data += packed(text, "lsb")
        cuts = sorted(rng.sample(range(1, len(data)), scn["parts"] - 1))
        pieces = [data[i:j] for i, j in zip([0] + cuts, cuts + [len(data)])]
        parts, content = [], b""
        for i, piece in enumerate(pieces):
            head = bytearray(rng.randrange(256) for _ in range(62))
            last = scn["eof"] and i == len(pieces) - 1
            head[13] = rng.randrange(256) & ~2 | (2 if last else 0)
            head[40:42] = struct.pack("<H", h // 16)
            head[43] = w // 16
            head[44] = rng.randrange(16) << 4 | mode
            head[45] = rng.randrange(16) << 4 | scn["table"]
            head[58:62] = struct.pack("<I", len(piece))
            parts.append({"head": list(head), "data": list(piece)})
            content += bytes(head) + piece + bytes([rng.randrange(256)])
        if scn["eof"] and rng.random() < .4:
            content += bytes(rng.randrange(256) for _ in range(100))
        name = "M0000001.IMQ"
        label = "\r\n".join([
            "PDS_VERSION_ID = PDS3", "RECORD_TYPE = FIXED_LENGTH",
            "RECORD_BYTES = 2048", f'FILE_NAME = "{name}"',
            "^IMAGE = 2", 'SPACECRAFT_NAME = "MARS_GLOBAL_SURVEYOR"',
            f'INSTRUMENT_ID = "{rng.choice(("MOC-NA", "MOC-WA"))}"',
            'DATA_QUALITY_DESC = "OK"',
            "OBJECT = IMAGE", "ENCODING_TYPE = \"MOC-PRED-X-5\"",
            f"LINES = {h}", f"LINE_SAMPLES = {w}", "SAMPLE_BITS = 8",
            "SAMPLE_TYPE = UNSIGNED_INTEGER", "END_OBJECT = IMAGE",
            "END", ""]).encode()
        path = d / rng.choice((name, name.lower()))
        path.write_bytes(label.ljust(2048, b" ") + content)
        return dict(op="moc", parts=parts), path

    def execute(self, scn, d):
        import pdr
        e, path = getattr(self, scn["k"])(scn, d)
        got = {}

        def look(v):
            if not isinstance(v, np.ndarray):
                return {"kind": type(v).__name__}
            return {"kind": "image",
                    "shape": [n for n in v.shape if n != 1],
                    "pixels": [int(x) for x in v.ravel()]}

        def first():
            got["x"] = pdr.read(str(path))
            return look(got["x"]["IMAGE"])

        def again():
            got["x"].load("IMAGE", reload=True)
            return look(got["x"]["IMAGE"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e["obs"] = [project.observe(f, lambda v: v) for f in (first, again)]
        return [e]

    def timeout_events(self, scn):
        return [dict(op=scn["k"], obs=[{"kind": "timeout"}])]

    def canary(self, evs, rng):
        e, obs = evs[0], evs[0]["obs"][0]
        if obs["kind"] == "image":
            if rng.random() < .7:
                i = rng.randrange(len(obs["pixels"]))
                obs["pixels"][i] += 1
            else:
                obs["shape"] = obs["shape"][::-1] + [1]
        else:
            e["obs"][0] = dict(obs, kind="timeout")
        return evs


PROPS = [Malin]
