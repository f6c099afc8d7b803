"""Writers for PDS3 products (concretisation only; no expected values)."""
from __future__ import annotations


def pvl(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "raw":
        return v[1]
    if isinstance(v, (list, tuple)):
        return "(" + ", ".join(pvl(x) for x in v) + ")"
    return str(v)


def q(s):
    """a quoted string"""
    return ("raw", '"%s"' % s)


def raw(s):
    return ("raw", s)


def render(items, indent=0):
    """items: list of (key, value) | ("OBJECT", name, items)"""
    out = []
    pad = "  " * indent
    for it in items:
        if len(it) == 3:
            kind, name, sub = it
            out.append(f"{pad}{kind} = {name}")
            out += render(sub, indent + 1)
            out.append(f"{pad}END_{kind} = {name}")
        else:
            out.append(f"{pad}{it[0]} = {pvl(it[1])}")
    return out


def label(items, version=True, end=True):
    lines = (["PDS_VERSION_ID = PDS3"] if version else []) + render(items)
    if end:
        lines.append("END")
    return ("\r\n".join(lines) + "\r\n").encode("ascii")
