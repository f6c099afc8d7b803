"""C24 desktop images."""
from __future__ import annotations

import random
import struct
import warnings
import zlib

import numpy as np
from PIL import Image

import pdr

from . import project
from .core import Prop

ADAM7 = ((0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4),
         (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2))
SAMPLES = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}


def array(v):
    if not isinstance(v, np.ndarray) or isinstance(v, np.ma.MaskedArray):
        return {"kind": type(v).__name__}
    if v.dtype.kind == "b":
        return {"kind": "array", "dtype": "b1", "shape": list(v.shape),
                "data": [[int(i)] for i in v.ravel()]}
    if v.dtype.kind not in "iuf":
        return {"kind": str(v.dtype)}
    return {"kind": "array", "dtype": project.dtcode(v.dtype),
            "shape": list(v.shape), "data": project.canon_bytes(v)}


def pack(samples, depth):
    """a row of samples of less than 8 bits"""
    bits = "".join(format(s, f"0{depth}b") for s in samples)
    bits += "0" * (-len(bits) % 8)
    return [int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)]


def colours(rng, n):
    """a palette that is not a gray scale"""
    p = [[rng.randrange(256) for _ in range(3)] for _ in range(n)]
    p[0] = [rng.randrange(1, 200), 0, 201 + rng.randrange(50)]
    return p


# ------------------------------------------------------------------- PNG

def png_filter(f, row, up, bpp):
    out = []
    for i, v in enumerate(row):
        a = row[i - bpp] if i >= bpp else 0
        b = up[i]
        c = up[i - bpp] if i >= bpp else 0
        p = a + b - c
        paeth = min((abs(p - a), 0, a), (abs(p - b), 1, b),
                    (abs(p - c), 2, c))[2]
        out.append((v - (0, a, b, (a + b) // 2, paeth)[f]) % 256)
    return out


def chunk(kind, data):
    return struct.pack(">I", len(data)) + kind + data + struct.pack(
        ">I", zlib.crc32(kind + data))


def png(rng, what, im):
    ctype, depth = rng.choice(
        ((0, 1), (0, 2), (0, 4), (0, 8), (0, 8), (0, 16), (2, 8), (2, 8),
         (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (6, 8)))
    w, h = rng.randrange(1, 12), rng.randrange(1, 10)
    inter = rng.random() < 0.3
    filters = None
    if what.get("kind") == "png":
        ctype, depth, w, h, inter = rng.choice((0, 0, 3)), 8, 2, 2, False
        filters = what["f"]
    elif what.get("kind") == "adam7":
        w, h, inter = what["w"], what["h"], True
    k = SAMPLES[ctype]
    ncol = 256 if im else min(1 << depth, rng.choice((256, 3)))
    top = ncol if ctype == 3 else 1 << depth
    pal = colours(rng, ncol) if ctype == 3 else []
    smooth = rng.random() < 0.5
    px = [[[(x * 3 + y * 5 + c * 40) % top if smooth else rng.randrange(top)
            for c in range(k)] for x in range(w)] for y in range(h)]
    if im:
        px = [[[im[y * w + x]] for x in range(w)] for y in range(h)]
    bpp = max(1, depth * k // 8)
    passes, raw = [], b""
    for x0, y0, dx, dy in ADAM7 if inter else ((0, 0, 1, 1),):
        lines, up = [], None
        for n, y in enumerate(range(y0, h, dy)):
            flat = [s for x in range(x0, w, dx) for s in px[y][x]]
            if not flat:
                continue
            row = flat if depth == 8 else pack(flat, depth) if depth < 8 \
                else [b for s in flat for b in divmod(s, 256)]
            f = filters[n] if filters else rng.randrange(5)
            d = png_filter(f, row, up or [0] * len(row), bpp)
            lines.append({"f": f, "d": d})
            raw += bytes([f] + d)
            up = row
        passes.append(lines)
    z = zlib.compress(raw)
    cut = rng.randrange(len(z) + 1) if rng.random() < 0.3 else len(z)
    data = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(
        ">IIBBBBB", w, h, depth, ctype, 0, 0, int(inter)))
    if pal:
        data += chunk(b"PLTE", bytes(c for p in pal for c in p))
    data += chunk(b"IDAT", z[:cut])
    if cut < len(z):
        data += chunk(b"IDAT", z[cut:])
    data += chunk(b"IEND", b"")
    return data, dict(fmt="PNG", w=w, h=h, depth=depth, ctype=ctype,
                      interlaced=inter, passes=passes, palette=pal)


# ------------------------------------------------------------------- BMP

def bmp(rng, what, im):
    w, h = rng.randrange(1, 12), rng.randrange(1, 10)
    bpp, topdown = rng.choice((1, 4, 8, 24, 24, 32)), rng.random() < 0.4
    if what.get("kind") == "bmp":
        w, h, bpp, topdown = (what[k] for k in ("w", "h", "bpp", "topdown"))
    pal = colours(rng, 1 << bpp) if bpp <= 8 else []
    stride = (w * bpp + 31) // 32 * 4
    data = []
    for _ in range(h):
        if bpp <= 8:
            row = pack([rng.randrange(1 << bpp) for _ in range(w)], bpp) \
                if bpp < 8 else [rng.randrange(256) for _ in range(w)]
        elif bpp == 24:
            row = [rng.randrange(256) for _ in range(3 * w)]
        else:
            row = [b for _ in range(w) for b in (
                rng.randrange(256), rng.randrange(256), rng.randrange(256),
                0)]
        data += row + [rng.randrange(256) for _ in range(stride - len(row))]
    table = b"".join(bytes((b, g, r, 0)) for r, g, b in pal)
    off = 54 + len(table)
    head = b"BM" + struct.pack("<IHHI", off + len(data), 0, 0, off) + \
        struct.pack("<IiiHHIIiiII", 40, w, -h if topdown else h, 1, bpp, 0,
                    len(data), 2835, 2835, len(pal), 0)
    return head + table + bytes(data), dict(
        fmt="BMP", w=w, h=h, bpp=bpp, topdown=topdown, data=data, palette=pal)


# ------------------------------------------------------------------ TIFF

def tiff(rng, what, im):
    w, h = rng.randrange(1, 9), rng.randrange(1, 9)
    spp, planar = rng.choice((1, 1, 3, 3, 2, 4)), rng.random() < 0.3
    rps = rng.randrange(1, h + 1)
    if what.get("kind") == "tiff":
        w, h, spp, rps, planar = (
            what[k] for k in ("w", "h", "spp", "rps", "planar"))
    planar = planar and spp == 3
    little = rng.random() < 0.5
    bps, real, pal = 8, False, []
    if spp == 1:
        bps, real = rng.choice(((8, False), (8, False), (16, False),
                                (32, True), (32, False)))
        if bps == 8 and rng.random() < 0.3:
            pal = colours(rng, 256)
    en = "<" if little else ">"
    n = w * h * spp
    if real:
        body = struct.pack(f"{en}{n}f", *[rng.uniform(-99, 99)
                                          for _ in range(n)])
    else:
        body = bytes(rng.randrange(256) for _ in range(n * bps // 8))
    rowlen = (w if planar else w * spp) * bps // 8
    rows = [list(body[i * rowlen:(i + 1) * rowlen])
            for i in range(len(body) // rowlen)]
    strips = []
    for p in range(spp if planar else 1):
        plane = rows[p * h:(p + 1) * h]
        for i in range(0, h, rps):
            strips.append([b for r in plane[i:i + rps] for b in r])
    # layout: header, strips in any order with gaps, directory
    blob = bytearray(b"\0" * 8)
    at = [0] * len(strips)
    order = list(range(len(strips)))
    if rng.random() < 0.4:
        rng.shuffle(order)
    for i in order:
        blob += bytes(rng.choice((0, 0, 2, 4)))
        at[i] = len(blob)
        blob += bytes(strips[i])
        blob += bytes(len(blob) % 2)
    extra = bytearray()
    tags = []
    base = len(blob)

    def tag(num, typ, vals):
        c = {3: "H", 4: "I"}[typ]
        data = struct.pack(f"{en}{len(vals)}{c}", *vals)
        tags.append((num, typ, len(vals), data))
    tag(256, 3, [w])
    tag(257, 3, [h])
    tag(258, 3, [bps] * spp)
    tag(259, 3, [1])
    tag(262, 3, [3 if pal else 2 if spp >= 3 else 1])
    tag(273, 4, at)
    tag(277, 3, [spp])
    tag(278, 3, [rps])
    tag(279, 4, [len(s) for s in strips])
    tag(284, 3, [2 if planar else 1])
    if pal:
        tag(320, 3, [p[c] * 257 for c in range(3) for p in pal])
    if spp in (2, 4):
        tag(338, 3, [2])
    if bps == 32:
        tag(339, 3, [3 if real else 2])
    ifd = struct.pack(en + "H", len(tags))
    more = base + 2 + 12 * len(tags) + 4
    for num, typ, count, data in tags:
        if len(data) <= 4:
            val = data + bytes(4 - len(data))
        else:
            val = struct.pack(en + "I", more + len(extra))
            extra += data + bytes(len(data) % 2)
        ifd += struct.pack(en + "HHI", num, typ, count) + val
    ifd += bytes(4)
    blob[0:8] = (b"II" if little else b"MM") + struct.pack(
        en + "HI", 42, base)
    return bytes(blob) + ifd + bytes(extra), dict(
        fmt="TIFF", w=w, h=h, bps=bps, spp=spp, rps=rps, planar=planar,
        strips=strips, palette=pal, little=little, real=real)


# ------------------------------------------------------------------- GIF

def lzw(indices, bits):
    """codes of unchanging width: cleared before the table grows"""
    clear, width = 1 << bits, bits + 1
    codes, since = [clear], 0
    for i in indices:
        if since == clear - 2:
            codes.append(clear)
            since = 0
        codes.append(i)
        since += 1
    codes.append(clear + 1)
    acc = n = 0
    out = bytearray()
    for c in codes:
        acc |= c << n
        n += width
        while n >= 8:
            out.append(acc & 255)
            acc >>= 8
            n -= 8
    if n:
        out.append(acc & 255)
    blocks = b"".join(bytes([len(out[i:i + 255])]) + bytes(out[i:i + 255])
                      for i in range(0, len(out), 255))
    return bytes([bits]) + blocks + b"\0"


def gif(rng, what, im, n):
    w, h = rng.randrange(1, 9), rng.randrange(1, 9)
    bits = rng.choice((2, 3, 8))
    common = colours(rng, 1 << bits)
    out = b"GIF89a" + struct.pack("<HHBBB", w, h, 0x80 | 0x70 | bits - 1,
                                  0, 0)
    out += bytes(c for p in common for c in p)
    frames = []
    for i in range(n):
        x = rng.randrange(w) if i else 0
        y = rng.randrange(h) if i else 0
        fw = rng.randrange(1, w - x + 1) if i else w
        fh = rng.randrange(1, h - y + 1) if i else h
        if rng.random() < 0.5:
            x, y, fw, fh = 0, 0, w, h
        own = rng.random() < 0.3
        pal = colours(rng, 1 << bits) if own else common
        data = [rng.randrange(1 << bits) for _ in range(fw * fh)]
        inter = rng.random() < 0.25
        stored = data
        if inter:
            rows = [r for s, d in ((0, 8), (4, 8), (2, 4), (1, 2))
                    for r in range(s, fh, d)]
            stored = [v for r in rows for v in data[r * fw:(r + 1) * fw]]
        if n > 1 or rng.random() < 0.5:
            # left in place or unspecified
            out += b"\x21\xf9\x04" + struct.pack(
                "<BHBB", rng.choice((0, 1)) << 2, 5, 0, 0)
        out += b"\x2c" + struct.pack(
            "<HHHHB", x, y, fw, fh, (0x80 | bits - 1 if own else 0)
            | (0x40 if inter else 0))
        if own:
            out += bytes(c for p in pal for c in p)
        out += lzw(stored, bits)
        frames.append(dict(x=x, y=y, w=fw, h=fh, palette=pal, data=data))
    return out + b"\x3b", dict(fmt="GIF", w=w, h=h, frames=frames)


MPO = {"Undefined": 0, "Large_Thumbnail__VGA_Equivalent_": 0x10001,
       "Multi-Frame_Image:__Disparity_": 0x20002}


def mpo(parts, types):
    """several JPEGs in a file, listed in a segment of the first one"""
    n = len(parts)
    ifd_len = 2 + 3 * 12 + 4
    seg = 2 + 4 + 8 + ifd_len + 16 * n          # with its length
    size0 = len(parts[0]) + 2 + seg
    base = 2 + 2 + 2 + 4                        # of the offsets
    entries, at = b"", size0
    for i, p in enumerate(parts):
        size = len(p) if i else size0
        entries += struct.pack("<IIIHH", types[i] if i else 0x30000, size,
                               at - base if i else 0, 0, 0)
        at += size if i else 0
    ifd = struct.pack("<H", 3) + struct.pack(
        "<HHI4s", 0xB000, 7, 4, b"0100") + struct.pack(
        "<HHII", 0xB001, 4, 1, n) + struct.pack(
        "<HHII", 0xB002, 7, 16 * n, 8 + ifd_len) + bytes(4)
    app = b"\xff\xe2" + struct.pack(">H", seg) + b"MPF\0" + \
        b"II*\0" + struct.pack("<I", 8) + ifd + entries
    return parts[0][:2] + app + parts[0][2:] + b"".join(parts[1:])


class Desktop(Prop):
    id = "C24"
    module = "Trace_Desktop"
    chunk_min = 40
    assumptions = (
        "depths and colour models pillow holds without loss (not 16-bit "
        "colour); gray images that are stored with white as 0 are excluded",
        "GIF frames are opaque and left in place; multi-frame TIFF and PNG "
        "are refused by design",
        "lossy formats are checked on images of flat colour, within 10 levels")
    level_note = (
        "TLC checks the decoders of the specification against writers of "
        "every small PNG, BMP and TIFF arrangement; real files written by "
        "independent encoders (pillow's own for WebP, JPEG2000, JPEG, MPO) "
        "are opened directly and through labels and compared by the trace "
        "specification; contents are seeded")

    def __init__(self, *a):
        super().__init__(*a)
        q = self.quick
        self.models = [
            ("MC_Desktop", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
             f"CONSTANTS\n Alphabet = {{0, 7, 200{'' if q else ', 255'}}}\n"
             f" PngW = 2\n PngH = {2 if q else 3}\n MaxW = {5 if q else 9}\n"
             f" MaxH = {3 if q else 5}\n"
             "INVARIANTS PngRead BmpRead TiffRead AdamWhole Emit\n",
             "files")] if q else [
            ("MC_Desktop", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
             "CONSTANTS\n Alphabet = {0, 7, 200, 255}\n PngW = 2\n PngH = 2\n"
             " MaxW = 9\n MaxH = 5\n"
             "INVARIANTS PngRead BmpRead TiffRead AdamWhole Emit\n", "files"),
            ("MC_Desktop", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
             "CONSTANTS\n Alphabet = {0, 129, 255}\n PngW = 3\n PngH = 2\n"
             " MaxW = 2\n MaxH = 2\nINVARIANTS PngRead\n", "filters")]

    def from_model(self, scns):
        groups = {}
        for s in {repr(s): s for s in scns}.values():
            groups.setdefault(s["what"]["kind"], []).append(s)
        out = []
        for k in sorted(groups):
            g = sorted(groups[k], key=repr)
            self.rng.shuffle(g)
            out += [self.one(k, s) for s in g[:60 if self.quick else 1500]]
        return out

    def random_scenarios(self):
        kinds = ("png", "png", "bmp", "tiff", "tiff", "gif", "frames",
                 "frames", "webp", "webps", "jp2", "jpeg", "mpo")
        return [self.one(self.rng.choice(kinds), {})
                for _ in range(330 if self.quick else 6000)]

    def one(self, kind, model):
        return dict(kind=kind, model=model, seed=self.rng.randrange(1 << 30))

    # ------------------------------------------------- pillow as the writer
    def plain(self, rng, fmt, n=1):
        w, h = rng.randrange(1, 10), rng.randrange(1, 10)
        mode = rng.choice({"WEBP": ("RGB", "RGBA")}.get(
            fmt, ("L", "RGB", "RGBA", "I;16")))
        k = {"L": 0, "I;16": 0, "RGB": 3, "RGBA": 4}[mode]
        if fmt == "WEBP" and k == 4:
            # some transparency in every frame, or it is dropped
            w = max(w, 2)
        dt = "u2" if mode == "I;16" else "u1"
        frames = []
        for i in range(n):
            a = np.array([rng.randrange(1 << (8 * int(dt[1])))
                          for _ in range(w * h * max(k, 1))],
                         dtype=dt).reshape((h, w) + ((k,) if k else ()))
            if k == 4 and fmt == "WEBP":
                a[..., 3] = 255
                a[0, 0, 3] = 1 + i
                a[0, 1, 3] = 254
            frames.append(a)
        return frames, dict(fmt=fmt, w=w, h=h, chans=k, dtype=dt)

    def flat(self, rng, n=1, k=3):
        w, h = rng.randrange(1, 3) * 16, rng.randrange(1, 3) * 16
        frames = []
        for _ in range(n):
            a = np.zeros((h, w, k), "u1")
            a[:] = [rng.randrange(20, 236) for _ in range(k)]
            if rng.random() < 0.5:      # another colour in some of the blocks
                a[:16, :16] = [rng.randrange(20, 236) for _ in range(k)]
            frames.append(a if k > 1 else a[..., 0])
        return frames, dict(w=w, h=h, chans=k if k > 1 else 0, dtype="u1")

    @staticmethod
    def numbers(a):
        return [[int(b) for b in np.array([v]).astype(
            v.dtype.newbyteorder(">")).tobytes()] for v in a.ravel()]

    def write(self, rng, scn, d):
        """file name, standard, the event of each frame"""
        kind, m = scn["kind"], scn["model"]
        what, im = m.get("what", {}), m.get("im", [])
        near = 0
        if kind in ("png", "adam7", "bmp", "tiff", "gif", "frames"):
            if kind in ("gif", "frames"):
                n = 1 if kind == "gif" else rng.choice((2, 3, 11, 12, 13))
                data, ev = gif(rng, what, im, n)
                evs = [dict(ev, frame=i, frames=ev["frames"][:i + 1])
                       for i in range(n)]
                std, ext = "GIF", ".gif"
            else:
                maker, std, ext = {
                    "png": (png, "PNG", ".png"),
                    "adam7": (png, "PNG", ".png"),
                    "bmp": (bmp, "BMP", ".bmp"),
                    "tiff": (tiff, "TIFF", rng.choice((".tif", ".tiff")))
                }[kind]
                data, ev = maker(rng, what, im)
                evs = [ev]
        else:
            n = 1
            kw = {}
            if kind in ("webp", "webps"):
                n = 1 if kind == "webp" else rng.choice((2, 3, 11, 12))
                frames, ev = self.plain(rng, "WEBP", n)
                std, ext = "WEBP", ".webp"
                kw = dict(lossless=True, exact=True, quality=40)
            elif kind == "jp2":
                frames, ev = self.plain(rng, "JPEG2000")
                std, ext = "JPEG2000", rng.choice((".jp2", ".jpf"))
                kw = dict(irreversible=False)
            else:
                n = 1 if kind == "jpeg" else rng.choice((2, 3, 12))
                frames, ev = self.flat(rng, n, rng.choice((1, 3, 3))
                                       if n == 1 else 3)
                ev["fmt"] = std = "JPEG" if n == 1 else "MPO"
                ext, near = rng.choice((".jpg", ".jpeg")), 10
                kw = dict(quality=98, subsampling=0)
            fn = d / ("out" + ext)
            ims = [Image.fromarray(f) for f in frames]
            if std == "MPO":
                parts = []
                for i in ims:
                    i.save(fn, format="JPEG", **kw)
                    parts.append(fn.read_bytes())
                ev["kinds"] = [rng.choice(list(MPO)) for _ in ims]
                data = mpo(parts, [MPO[k] for k in ev["kinds"]])
            else:
                if len(ims) > 1:
                    kw |= dict(save_all=True, append_images=ims[1:])
                ims[0].save(fn, format=std, **kw)
                data = fn.read_bytes()
            fn.unlink()
            evs = [dict(ev, data=self.numbers(f)) for f in frames]
        if rng.random() < 0.3:
            ext = ext.upper()
        fn = d / (rng.choice(("a", "IMG_1", "x.y", "pia01234")) + ext)
        fn.write_bytes(data)
        return fn, std, [dict(e, op="image", near=near) for e in evs]

    def execute(self, scn, d):
        rng = random.Random(scn["seed"])
        fn, std, evs = self.write(rng, scn, d)
        labelled, key = rng.random() < 0.25, ""
        n = len(evs)
        target = fn
        if labelled:
            key = rng.choice(("IMAGE", "BROWSE_IMAGE", "THUMBNAIL_IMAGE"))
            lab = d / "p.lbl"
            name = fn.name if rng.random() < 0.7 else fn.name.upper()
            obj = f"OBJECT = {key}\r\n LINES = {evs[0]['h']}\r\n" \
                  f" LINE_SAMPLES = {evs[0]['w']}\r\nEND_OBJECT = {key}\r\n"
            lab.write_text(
                "PDS_VERSION_ID = PDS3\r\nRECORD_TYPE = UNDEFINED\r\n"
                f"^{key} = \"{name}\"\r\n" + obj * (rng.random() < 0.7)
                + "END\r\n", newline="")
            target, evs = lab, evs[:1]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x = pdr.read(str(target))
            keys = list(x.keys())
            meta = {} if labelled else dict(
                width=x.metaget("width"), height=x.metaget("height"),
                format=x.metaget("format"), frames=x.metaget("n_frames", 1))
            out = [dict(op="open", standard=std,
                        kinds=evs[0].get("kinds", []), got=x.standard, n=n,
                        labelled=labelled, key=key, keys=keys, w=evs[0]["w"],
                        h=evs[0]["h"], meta=meta)]
            if labelled:
                names = [key]
            elif n == 1:
                names = ["IMAGE"]
            else:
                names = [k for k in keys][:len(evs)]
            if len(names) < len(evs) or any(k not in keys for k in names):
                return out
            order = list(range(len(evs)))
            rng.shuffle(order)
            order = order[:5] + [rng.choice(order)]
            for j, i in enumerate(order):
                how = rng.choice(("item", "item", "reload", "scaled", "attr"))
                if how == "scaled" and std == "JPEG2000":
                    how = "item"

                def get(i=i, how=how):
                    k = names[i]
                    if how == "scaled":
                        return x.get_scaled(k)
                    if how == "reload" and k in x.__dict__:
                        x.load(k, reload=True)
                    return getattr(x, k) if how == "attr" else x[k]
                out.append(dict(evs[i], obs=project.observe(get, array)))
        return out

    def timeout_events(self, scn):
        return [dict(op="open", standard="", kinds=[], got="timeout", n=1, w=0, h=0,
                     labelled=False, key="", keys=[], meta={})]

    def canary(self, evs, rng):
        im = [e for e in evs if e["op"] == "image"
              and e["obs"]["kind"] == "array"]
        if not im or rng.random() < 0.1:
            evs[0]["keys"] = evs[0]["keys"][1:]
            return evs
        o = rng.choice(im)["obs"]
        if len(o["shape"]) == 3 and o["shape"][0] != o["shape"][2] \
                and rng.random() < 0.4:
            o["shape"] = o["shape"][1:] + o["shape"][:1]
        elif o["dtype"] == "b1":
            o["data"][0][0] ^= 1
        else:
            o["data"][0][0] ^= 64
        return evs
