"""C06 label structure, C07 label values, C09 metadata lookups."""
from __future__ import annotations

import json
import random
import re
import string
import warnings
from xml.sax.saxutils import escape

from dustgoggles.tracker import TrivialTracker
from multidict import MultiDict

import pdr

from .core import Prop

WORDS = ("alpha", "beta", "the", "of", "Mars", "IMAGE", "data", "x", "km/s",
         "a,b", "(see", "note)", "it's", "50%", "<tag>", "A=b", "5", "3.5",
         "C:\\new\\tab", "#1", "{set}", "2001-01-01", "N/A", "e.g.", "a;b",
         "*.IMG", "--", "&", "[x]", "@", "'quoted'", "~", "^PTR", "é"[:0] + "z")
IDS = ("IMAGE", "MSB_INTEGER", "SAMPLE_INTERLEAVED", "A", "ZZ9", "MARS_2020",
       "HELLAS", "E5", "FIXED_LENGTH", "INF", "NAN", "X_1", "3D", "2MASS",
       "BAND-9", "DATA.DAT", "UM", "NONE", "TRUE")
NA = ("N/A", "NULL", "UNK")
DATES = ("1999-01-02", "1999-123", "2001-01-01T01:02:03.456Z", "12:30:45",
         "1990-12-31", "2001-10-11T12:00", "01:02:03", "1997-11-30T10:20:30")
UNITS = ("M", "KM/S", "DEG", "m", "W*M**-2*SR**-1", "BYTES", "PIXEL", "1/S",
         "DEGREES C", "km", "%", "MILLIMETER", "E")
KEYS = ("SPACECRAFT_NAME", "MRO:SPECIMEN_DESC", "END_TIME", "NOTE_TEXT",
        "GROUP_ID_NUMBER", "OBJECT_COUNT", "ENDING_ORBIT", "A", "BB", "UNIT",
        "DESCRIPTION", "COLUMNS", "BEGIN_GROUP_ID", "ITEM_BYTES", "Q_1",
        "END_OBJECT_COUNT", "ROTATION_ANGLE", "NAME", "START_BYTE")
BLOCKS = ("IMAGE", "TABLE", "COLUMN", "PARMS", "END_STATE", "GEOMETRY_PARMS",
          "IMAGE_HEADER", "A", "NAME")


def digits(rng, n):
    return "".join(rng.choice(string.digits) for _ in range(n))


def nat(rng):
    if rng.random() < 0.1:
        return "0"
    return rng.choice("123456789") + digits(rng, rng.choice((0, 0, 1, 2, 5, 14)))


def literal(rng, kind, deep=0, feat=None):
    """a concrete literal of the given kind: AST node with its source text"""
    if kind == "atom":
        kind = rng.choice(("int", "real", "based", "quoted", "word", "date",
                           "na", "sym", "quoted", "int", "real"))
    if kind == "int":
        x = rng.choice(("", "", "-", "+")) + nat(rng)
        return {"t": "int", "x": x, "src": x}
    if kind == "real":
        s = rng.choice(("", "", "-", "+"))
        i, f = nat(rng)[:9], digits(rng, rng.randrange(1, 7))
        form = rng.randrange(7)
        e = rng.choice("eE") + rng.choice(("", "-", "+")) + str(
            rng.choice((0, 1, 2, 3, 9, 15, 16, 17, 22, 38, 100)))
        m = (f"{i}.{f}", f"{i}.", f".{f}", f"{i}.{f}" + e, i + e, f"{i}." + e,
             f".{f}" + e)[form]
        return {"t": "real", "x": s + m, "src": s + m}
    if kind == "based":
        base = rng.choice((2, 8, 16, 16, 10, 3))
        ds = [rng.randrange(base) for _ in range(rng.randrange(1, 7))]
        txt = "".join("0123456789ABCDEF"[d] for d in ds)
        if rng.random() < 0.3:
            txt = txt.lower()
        neg, plus = rng.random() < 0.2, rng.random() < 0.1
        if neg and rng.random() < 0.5:
            src = f"{base}#-{txt}#"
        elif neg:
            src = f"-{base}#{txt}#"
        elif plus:
            src = f"+{base}#{txt}#"
        else:
            src = f"{base}#{txt}#"
        return {"t": "based", "neg": neg, "base": base, "digits": ds,
                "src": src}
    if kind in ("quoted", "sym"):
        n = rng.choice((0, 1, 1, 2, 3, 6))
        x = " ".join(rng.choice(WORDS) for _ in range(n))
        if kind == "sym":
            x = x.replace("'", "")
        q = '"' if kind == "quoted" else "'"
        return {"t": "text", "x": x, "src": q + x + q, "quoted": True}
    if kind in ("word", "date", "na"):
        x = rng.choice({"word": IDS, "date": DATES, "na": NA}[kind])
        return {"t": "text", "x": x, "src": x}
    if kind == "qty":
        v = literal(rng, rng.choice(("int", "real", "int", "real", "na")))
        return qty(rng, v)
    if kind in ("seq", "set"):
        return collection(rng, kind, [
            literal(rng, member(rng, kind, deep), deep + 1)
            for _ in range(rng.randrange(0 if kind == "seq" else 1, 5))])
    raise ValueError(kind)


def member(rng, kind, deep):
    if deep < 2 and kind == "seq" and rng.random() < 0.25:
        return rng.choice(("seq", "seq", "set"))
    return rng.choice(("atom", "atom", "atom", "qty"))


def qty(rng, v):
    u = rng.choice(UNITS)
    return {"t": "qty", "v": v, "u": u,
            "src": f"{v['src']}{rng.choice((' ', ' ', '', '  '))}<{u}>"}


def collection(rng, kind, items):
    o, c = ("(", ")") if kind == "seq" else ("{", "}")
    if kind == "set" and not items:
        items = [literal(rng, "word")]
    pad, sep = rng.choice((("", ", "), ("", ","), (" ", " , "), ("", ", ")))
    # \x01 marks a place where the line may be broken
    return {"t": kind, "e": items, "src": o + pad + (sep + "\x01").join(
        i["src"] for i in items) + pad + c}


def concrete(rng, a):
    """an abstract literal of MC_Value -> a concrete one"""
    if a["t"] in ("seq", "set"):
        return collection(rng, a["t"], [concrete(rng, x) for x in a["e"]])
    if a["t"] == "qty":
        return qty(rng, literal(rng, a["v"]["t"]))
    return literal(rng, a["t"])


def strip(a):
    """the part of a literal the specification sees"""
    out = {k: v for k, v in a.items() if k not in ("quoted",)}
    if "e" in out:
        out["e"] = [strip(x) for x in out["e"]]
    if "v" in out:
        out["v"] = strip(out["v"])
    out["src"] = out["src"].replace("\x01", "")
    return out


class Style:
    def __init__(self, rng, features=()):
        self.rng = rng
        self.eol = rng.choice(("\r\n", "\r\n", "\n"))
        self.indent = rng.choice((0, 2, 2, 4))
        self.comments = rng.choice((0, 0, 0.15))
        self.blank = rng.choice((0, 0, 0.15))
        self.breaks = rng.choice((0, 0.3, 0.3))
        self.eq = rng.choice((" = ", " = ", "=", "      = ", " =  "))
        self.openers = rng.choice((
            ("OBJECT",), ("GROUP",), ("OBJECT", "GROUP"),
            ("BEGIN_OBJECT", "BEGIN_GROUP", "OBJECT", "GROUP")))
        self.named = rng.choice((1, 1, 0, 0.5))
        self.upper = rng.random() < 0.3
        self.features = set(features)

    def comment(self):
        return "/* %s */" % self.rng.choice((
            "comment", "A = 5", "it's \"quoted", "END_OBJECT", "x /x * y",
            "------", "", "one */ /* two", "(1, 2"))

    def render(self, xs):
        rng, out, depth, names, hits = self.rng, [], 0, [], set()

        def noise():
            if rng.random() < self.comments:
                out.append(" " * rng.randrange(4) + self.comment())
            if rng.random() < self.blank:
                out.append(" " * rng.randrange(3))

        for x in xs:
            noise()
            if x["s"] == "close":
                kind, name = names.pop() if names else ("OBJECT", "NOTHING")
                depth = len(names)
                kind = kind.replace("BEGIN_", "")
                line = f"END_{kind}"
                if rng.random() < self.named:
                    line += f"{self.eq}{name}"
            elif x["s"] == "open":
                kind = rng.choice(self.openers)
                line = f"{kind}{self.eq}{x['k']}"
                names.append((kind, x["k"]))
            else:
                src = x["v"]["src"]
                if x["v"].get("quoted"):
                    src = "".join(
                        "\x02" if ch == " " and x["v"]["x"] else ch
                        for ch in src)
                lines = self.broken(src)
                head = f"{x['k']}{self.eq}"
                if rng.random() < self.breaks * 0.2:
                    lines = [""] + lines
                line = head + lines[0]
                more = lines[1:]
                probe = line.strip()[:8]
                if probe != probe.upper():
                    hits.add("short-keyword")
                if "/*" in src:
                    hits.add("comment-opener-in-text")
                for ln in more:
                    p = ln.strip()
                    if "=" in p and p[:8] == p[:8].upper():
                        hits.add("assignment-like-continuation")
                    if p == "END":
                        hits.add("end-in-text")
                out.append(" " * (self.indent * depth) + line)
                for ln in more:
                    if rng.random() < self.comments and not x["v"].get(
                            "quoted"):
                        out[-1] += " " + self.comment()
                    out.append(" " * (self.indent * depth + rng.randrange(9))
                               + ln)
                if rng.random() < self.comments:
                    out[-1] += "  " + self.comment()
                continue
            out.append(" " * (self.indent * depth) + line)
            if rng.random() < self.comments:
                out[-1] += " " + self.comment()
            if x["s"] == "open":
                depth = len(names)
        noise()
        out.append("END")
        text = self.eol.join(out) + self.eol
        if "one */ /* two" in text:
            pass
        return text, sorted(hits)

    def broken(self, src):
        """split the source at permitted places"""
        rng, lines, cur = self.rng, [], ""
        for ch in src:
            if ch == "\x01":
                if rng.random() < self.breaks:
                    lines.append(cur)
                    cur = ""
            elif ch == "\x02":
                if rng.random() < self.breaks:
                    lines.append(cur)
                    cur = ""
                else:
                    cur += " "
            else:
                cur += ch
        return lines + [cur]


# ------------------------------------------------------------- projection

def pv(v):
    if v is None:
        return {"t": "none", "v": ""}
    if isinstance(v, bool):
        return {"t": "bool", "v": str(v)}
    if isinstance(v, int):
        return {"t": "int", "v": str(v)}
    if isinstance(v, float):
        return {"t": "float", "v": repr(v)}
    if isinstance(v, str):
        return {"t": "str", "v": v}
    if isinstance(v, tuple):
        return {"t": "tuple", "v": [pv(x) for x in v]}
    if isinstance(v, (set, frozenset)):
        return {"t": "set", "v": sorted((pv(x) for x in v),
                                        key=lambda p: json.dumps(p))}
    if isinstance(v, MultiDict):
        return {"t": "block", "e": entries(v)}
    if hasattr(v, "items") and hasattr(v, "getall"):
        return {"t": "block", "e": entries(v)}
    if isinstance(v, dict):
        return {"t": "map", "v": [[str(k), pv(x)] for k, x in v.items()]}
    return {"t": type(v).__name__, "v": repr(v)}


def entries(m):
    return [{"k": str(k), "v": pv(v)} for k, v in m.items()]


HEAD = {"s": "kv", "k": "PDS_VERSION_ID",
        "v": {"t": "text", "x": "PDS3", "src": "PDS3"}}


class Label(Prop):
    module = "Trace_Label"

    def read(self, scn, d):
        rng = random.Random(scn["style"])
        xs = [HEAD] + scn["xs"]
        text, hits = Style(rng).render(xs)
        p = d / ("label" + rng.choice((".lbl", ".LBL", ".lbl")))
        p.write_bytes(text.encode())
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                data = pdr.read(str(p), tracker=TrivialTracker())
                obs = {"t": "block", "e": entries(data.metadata)}
            except Exception as ex:
                data = None
                obs = {"t": "exc", "v": type(ex).__name__ + str(ex)[:100]}
        ev = {"op": "read", "xs": [
            dict(x, v=strip(x["v"])) if x["s"] == "kv" else x for x in xs] + [{"s": "end"}],
            "obs": obs, "warned": bool(w), "text": text, "hits": hits}
        return data, ev

    def execute(self, scn, d):
        return [self.read(scn, d)[1]]

    def timeout_events(self, scn):
        return [{"op": "read", "xs": [], "obs": {"t": "timeout"},
                 "warned": False, "hits": []}]

    def known_key(self, events, reject):
        if reject["ev"] != 0:
            return ""
        hits = set(events[0]["hits"])
        for x in events[0]["xs"]:
            if x["s"] == "kv":
                hits |= quirks(x["v"])
        for k in sorted(hits):
            return k
        return ""

    def nontrivial(self, evs):
        return len(evs[0]["xs"]) > 2

    def names(self, rng):
        ks = rng.sample(KEYS, 6)
        bs = rng.sample(BLOCKS, 4)
        if rng.random() < 0.3:
            bs[0] = ks[0]
        return ks, bs


def quirks(a):
    """features of a literal that are listed as known findings"""
    out = set()
    if a["t"] == "int":
        b = a["x"].lstrip("+-")
        if len(b) > 1 and b[0] == "0" and b.strip("0"):
            out.add("leading-zero-integer")
    for x in a.get("e", ()):
        out |= quirks(x)
        if x["t"] == "text" and x["src"] in PYTHON_ONLY:
            out.add("python-only-literal-in-collection")
    if a["t"] == "qty":
        out |= quirks(a["v"])
    return out


PYTHON_ONLY = ("1_0", "0x10", "0b1", "1J", "None", "True", "False", "0o7",
               "2j", "1_2_3")


def cfg(mod, consts, invs):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            + "".join(f" {k} = {v}\n" for k, v in consts.items())
            + ("INVARIANTS " + invs + "\n" if invs else ""))


class Structure(Label):
    id = "C06"

    def __init__(self, *a):
        super().__init__(*a)
        n = 5 if self.quick else 6
        self.models = [("MC_Label", cfg("MC_Label", dict(
            Keys='{"A", "B"}', Blocks='{"A", "C"}', MaxLen=n, MaxDepth=3),
            "NothingLost IsFold FoundIff Outermost Emit"), "streams")]

    def from_model(self, scns):
        rng = self.rng
        scns = sorted(scns, key=lambda s: json.dumps(s, sort_keys=True))
        cap = 1200 if self.quick else 8000
        if len(scns) > cap:
            scns = rng.sample(scns, cap)
        out = []
        for s in scns:
            ks, bs = self.names(rng)
            m = {"A": ks[0], "B": ks[1]}
            mb = {"A": ks[0], "C": bs[1]}
            xs = []
            for x in s["xs"]:
                if x["s"] == "kv":
                    xs.append(dict(s="kv", k=m[x["k"]],
                                   v=self.val(rng)))
                elif x["s"] == "open":
                    xs.append(dict(s="open", k=mb[x["k"]]))
                else:
                    xs.append(dict(s="close"))
            out.append(dict(xs=xs, style=rng.randrange(1 << 30)))
        return out

    def val(self, rng):
        return literal(rng, rng.choice((
            "int", "quoted", "quoted", "word", "seq", "qty", "date", "na")))

    def stream(self, rng, n, complete=False):
        ks, bs = self.names(rng)
        xs, depth = [], 0
        for _ in range(n):
            r = rng.random()
            if r < 0.55:
                xs.append(dict(s="kv", k=rng.choice(ks), v=self.val(rng)))
            elif r < 0.75 and depth < 5:
                xs.append(dict(s="open", k=rng.choice(bs)))
                depth += 1
            else:
                if depth == 0 and complete:
                    continue
                xs.append(dict(s="close"))
                depth = max(0, depth - 1)
        if complete or rng.random() < 0.8:
            xs += [dict(s="close")] * depth
        return xs

    def random_scenarios(self):
        rng = self.rng
        return [dict(xs=self.stream(rng, rng.randrange(1, 30)),
                     style=rng.randrange(1 << 30))
                for _ in range(500 if self.quick else 5000)]

    def canary(self, evs, rng):
        e = evs[0]["obs"].get("e")
        if not e or len(e) < 2:
            return None
        c = rng.randrange(4)
        if c == 0:
            e.pop(rng.randrange(len(e)))
        elif c == 1:
            i = rng.randrange(len(e) - 1)
            if e[i]["k"] == e[i + 1]["k"]:
                return None
            e[i], e[i + 1] = e[i + 1], e[i]
        elif c == 2:
            e[-1]["k"] += "X"
        else:
            e.append(dict(e[0]))
        return evs


class Values(Label):
    id = "C07"

    def __init__(self, *a):
        super().__init__(*a)
        self.models = [("MC_Value", (
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            ' Atoms = {"int", "real", "based", "quoted", "word", "date", "na",'
            ' "sym"}\n'
            f" MaxSeq = {2 if self.quick else 3}\n Deep = {1 if self.quick else 2}\n"
            "INVARIANT Emit\n"), "values")]

    def from_model(self, scns):
        rng = self.rng
        scns = sorted(scns, key=lambda s: json.dumps(s, sort_keys=True))
        cap = 3000 if self.quick else 24000
        if len(scns) > cap:
            scns = rng.sample(scns, cap)
        vals = [concrete(rng, s["val"]) for s in scns]
        return self.pack(rng, vals, 3)

    def pack(self, rng, vals, n):
        out = []
        for i in range(0, len(vals), n):
            ks = rng.sample([k for k in KEYS if len(k) > 6], n)
            out.append(dict(
                xs=[dict(s="kv", k=k, v=v) for k, v in zip(ks, vals[i:i + n])],
                style=rng.randrange(1 << 30)))
        return out

    def random_scenarios(self):
        rng = self.rng
        vals = [literal(rng, rng.choice(
            ("atom", "seq", "seq", "set", "qty", "atom")))
            for _ in range(1800 if self.quick else 20000)]
        out = self.pack(rng, vals, 3)
        # literals that are known to be misread
        odd = []
        for x in PYTHON_ONLY:
            odd.append({"t": "text", "x": x, "src": x})
        for x in ("007", "-010", "+0123", "0123456"):
            odd.append({"t": "int", "x": x, "src": x})
        odd.append(collection(rng, "seq", [
            {"t": "int", "x": "08", "src": "08"}, literal(rng, "int")]))
        for x in PYTHON_ONLY:
            odd.append(collection(rng, "seq", [
                {"t": "text", "x": x, "src": x}, literal(rng, "int")]))
        odd.append(collection(rng, "set", [
            {"t": "text", "x": "12:30", "src": "12:30"},
            {"t": "text", "x": "2:45", "src": "2:45"}]))
        odd.append({"t": "text", "x": "DATA/*.IMG", "src": '"DATA/*.IMG"',
                    "quoted": True})
        return out + self.pack(rng, odd, 1)

    def canary(self, evs, rng):
        e = evs[0]["obs"].get("e")
        if not e:
            return None
        x = rng.choice(e[1:] or e)["v"]
        while x["t"] in ("tuple", "set") and x["v"]:
            x = x["v"][0]
        if x["t"] == "int":
            x["v"] = str(int(x["v"]) + 1)
        elif x["t"] == "float":
            x["v"] = repr(float(x["v"]) * 1.5 + 1)
        elif x["t"] == "str":
            x["v"] += " "
        elif x["t"] == "map" and x["v"]:
            x["v"][1][1] = {"t": "str", "v": "PARSEC"}
        else:
            x["t"] = "none"
        return evs


DEFAULTS = [None, 0, 1, 1.0, True, False, "", "text", [], {}, (), [1, 2],
            {"a": 1}, {1, 2}]


HEAD4 = (("logical_identifier", "urn:nasa:pds:a:b:c"), ("version_id", "1.0"),
         ("title", "a title"), ("information_model_version", "1.11.0.0"),
         ("product_class", "Product_Observational"))
TEXTS = ("1", "two", "3.50", "N/A", "a & b", "x < y", "007", "true", "caf\u00e9")


def elements(rng, xs):
    """
    the statements of a PDS4 label with these ones' structure (elements of the
    same name within another one are kept together, and none is empty)
    """
    def tag(k):
        k = re.sub(r"[^A-Za-z0-9_.]", "_", k)
        return k if k[:1].isalpha() else "x" + k

    def kv(k, v):
        return dict(s="kv", k=k, v=dict(t="text", x=v))

    def gather(i):
        mine = []          # (name, statements)
        while i < len(xs) and xs[i]["s"] != "close":
            x = xs[i]
            if x["s"] == "open":
                inner, i = gather(i + 1)
                mine.append((tag(x["k"]), [dict(s="open", k=tag(x["k"]))]
                             + (inner or [kv("filler", "-")])
                             + [dict(s="close")]))
            elif x["s"] == "kv":
                mine.append((tag(x["k"]),
                             [kv(tag(x["k"]), rng.choice(TEXTS))]))
            i += 1
        first = [n for n, _ in mine]
        mine.sort(key=lambda m: first.index(m[0]))
        return [s for _, ss in mine for s in ss], i

    body, i = gather(0)
    out = [dict(s="open", k="Product_Observational"),
           dict(s="open", k="Identification_Area"),
           *(kv(*h) for h in HEAD4), dict(s="close"),
           dict(s="open", k="Context_Area"), *(body or [kv("filler", "-")]),
           dict(s="close"), dict(s="close")]
    return out


class Lookups(Structure):
    id = "C09"

    def __init__(self, *a):
        super().__init__(*a)
        self.models = [(m, c.replace("MaxLen = 6", "MaxLen = 5"), lab)
                       for m, c, lab in self.models]

    def from_model(self, scns):
        scns = [s for s in scns if s["open"] == 0]
        out = super().from_model(scns)
        for s in out:
            self.ops(s)
        return out

    def val(self, rng):
        if rng.random() < 0.2:
            return literal(rng, "seq")
        return literal(rng, rng.choice(("int", "quoted", "word", "qty")))

    def random_scenarios(self):
        rng = self.rng
        out = []
        for _ in range(400 if self.quick else 4000):
            s = dict(xs=self.stream(rng, rng.randrange(1, 25), True),
                     style=rng.randrange(1 << 30))
            out.append(self.ops(s))
        return out

    def ops(self, s):
        rng = self.rng
        ks = sorted({x["k"] for x in s["xs"] if "k" in x})
        ks = (ks + ["PDS_VERSION_ID", "NO_SUCH_KEY", "IMAGE", "NAM"])
        s["pds4"] = rng.random() < .3
        if s["pds4"]:
            s["xs"] = elements(rng, s["xs"])
            ks = sorted({x["k"] for x in s["xs"] if "k" in x} | {
                "title", "Context_Area", "NO_SUCH_KEY", "Product"})
        s["ops"] = [
            [rng.choice(("get", "get", "getq", "block", "blockq",
                         "mget", "mgetq", "mblock")),
             rng.choice(ks), rng.randrange(len(DEFAULTS))]
            for _ in range(rng.randrange(4, 16))]
        return s

    def execute(self, scn, d):
        data, ev = (self.read4 if scn.get("pds4") else self.read)(scn, d)
        evs = [ev]
        if data is None:
            return evs
        for op, key, di in scn["ops"]:
            default = DEFAULTS[di]
            m = data.metadata
            f = {"get": lambda: data.metaget(key, default),
                 "getq": lambda: data.metaget_(key, default),
                 "mget": lambda: m.metaget(key, default),
                 "mgetq": lambda: m.metaget_(key, default),
                 "block": lambda: data.metablock(key),
                 "blockq": lambda: data.metablock_(key),
                 "mblock": lambda: m.metablock(key)}[op]
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    r = f()
                    obs, isdef = pv(r), r is default
                except Exception as ex:
                    obs, isdef = {"t": "exc", "v": type(ex).__name__}, False
            evs.append({"op": "block" if "block" in op else "get", "k": key,
                        "loud": not op.endswith("q"), "obs": obs,
                        "isdef": isdef, "warned": bool(w), "d": di,
                        "hits": []})
        return evs

    def read4(self, scn, d):
        """a PDS4 label of these statements"""
        text, nl = [], "\n" if scn["style"] % 3 else ""
        depth = 0
        stack = []
        for x in scn["xs"]:
            if x["s"] == "open":
                ns = ' xmlns="http://pds.nasa.gov/pds4/pds/v1"'
                text.append(f"<{x['k']}{ns if not stack else ''}>{nl}")
                stack.append(x["k"])
            elif x["s"] == "close":
                text.append(f"</{stack.pop()}>{nl}")
            else:
                text.append(f"<{x['k']}>{escape(x['v']['x'])}</{x['k']}>{nl}")
        p = d / ("label" + (".xml", ".lblx")[scn["style"] % 2])
        p.write_text('<?xml version="1.0" encoding="UTF-8"?>\n'
                     + "".join(text), encoding="utf-8")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                data = pdr.read(str(p), tracker=TrivialTracker())
                obs = {"t": "block", "e": entries(data.metadata)}
            except Exception as ex:
                data = None
                obs = {"t": "exc", "v": type(ex).__name__ + str(ex)[:100]}
        return data, {"op": "read", "xs": scn["xs"] + [{"s": "end"}],
                      "obs": obs, "warned": bool(w), "text": "", "hits": []}

    def nontrivial(self, evs):
        return len(evs) > 2

    def canary(self, evs, rng):
        if len(evs) < 2:
            return None
        e = rng.choice(evs[1:])
        c = rng.randrange(3)
        if c == 0:
            e["warned"] = not e["warned"]
        elif c == 1:
            if e["op"] == "get" and e["isdef"]:
                e["isdef"] = False
            else:
                e["obs"] = {"t": "str", "v": "nonsense value"}
        else:
            if e["op"] == "get" and e["isdef"]:
                return None
            e["obs"] = {"t": "none", "v": ""}
            if e["op"] == "block":
                e["obs"] = {"t": "exc", "v": "KeyError"}
        return evs
