"""Projection of Python values to the abstract values of the specification.

Every numeric array becomes dtype code + shape + the list of its elements in C
order, each element as the list of its bytes in canonical (big-endian) order.
Nothing here depends on pdr.
"""
from __future__ import annotations

import math
import warnings

import numpy as np


def canon_bytes(a: np.ndarray):
    a = np.ascontiguousarray(a)
    if a.dtype.byteorder not in (">", "|"):
        a = a.astype(a.dtype.newbyteorder(">"))
    raw = a.tobytes()
    n = a.dtype.itemsize
    return [list(raw[i:i + n]) for i in range(0, len(raw), n)]


def dtcode(dt: np.dtype) -> str:
    return {"b": "b"}.get(dt.kind, dt.kind) + str(dt.itemsize)


def scalar(v):
    """typed scalar: [tag, string-or-small-value]"""
    if v is None:
        return {"t": "none", "v": ""}
    if isinstance(v, (bool, np.bool_)):
        return {"t": "bool", "v": str(bool(v)).lower()}
    if isinstance(v, (int, np.integer)):
        return {"t": "int", "v": str(int(v))}
    if isinstance(v, (float, np.floating)):
        f = float(v)
        return {"t": "float", "v": "nan" if math.isnan(f) else repr(f)}
    if isinstance(v, bytes):
        return {"t": "bytes", "v": v.hex()}
    if isinstance(v, str):
        return {"t": "str", "v": str(v)}
    return {"t": type(v).__name__, "v": str(v)}


def array(a) -> dict:
    if isinstance(a, np.ma.MaskedArray):
        m = np.ma.getmaskarray(a)
        d = array(np.asarray(a.data))
        d["mask"] = [int(x) for x in m.ravel()]
        d["kind"] = "masked"
        return d
    a = np.asarray(a)
    return {
        "kind": "array", "dtype": dtcode(a.dtype),
        "shape": [int(s) for s in a.shape], "data": canon_bytes(a),
    }


def column(series):
    import pandas as pd

    v = series.to_numpy() if hasattr(series, "to_numpy") else np.asarray(
        series)
    name = str(series.name)
    if v.dtype.kind in "iuf":
        return {"name": name, "kind": "num", "dtype": dtcode(v.dtype),
                "data": canon_bytes(v)}
    if v.dtype.kind == "b":
        return {"name": name, "kind": "bool", "dtype": "b1",
                "data": [[int(x)] for x in v]}
    out, kinds = [], set()
    for x in v:
        if isinstance(x, (bytes, np.void)):
            kinds.add("bytes")
            out.append(list(bytes(x)))
        elif isinstance(x, str):
            kinds.add("str")
            out.append(list(x.encode("utf-8", "surrogateescape")))
        elif isinstance(x, list):
            kinds.add("list")
            out.append([str(y) for y in x])
        elif x is None or (isinstance(x, float) and math.isnan(x)):
            kinds.add("null")
            out.append([])
        else:
            kinds.add(type(x).__name__)
            out.append(list(repr(x).encode()))
    return {"name": name, "kind": "+".join(sorted(kinds)) or "empty",
            "dtype": "O", "data": out}


def table(df):
    return {"kind": "table", "nrows": int(len(df)),
            "cols": [column(df.iloc[:, i]) for i in range(df.shape[1])]}


def value(v):
    import pandas as pd

    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return {"kind": "structarray", "dtype": str(v.dtype)}
        return array(v)
    if isinstance(v, pd.DataFrame):
        return table(v)
    if isinstance(v, str):
        return {"kind": "text", "text": v}
    if v is None:
        return {"kind": "none"}
    return {"kind": "other", "type": type(v).__name__}


def observe(thunk, project=value):
    """run code under test; exceptions become observations"""
    try:
        return project(thunk())
    except Exception as e:
        return {"kind": "exc", "type": type(e).__name__, "msg": str(e)[:200]}
