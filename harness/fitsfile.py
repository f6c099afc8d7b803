"""Writes FITS files byte by byte (nothing of astropy)."""
from __future__ import annotations

BLOCK = 2880


def card(key, value="", comment="", raw=None):
    """one 80-byte card; value is already spelled"""
    if raw is not None:
        text = raw
    elif key in ("COMMENT", "HISTORY", ""):
        text = f"{key:<8}{value}"
    elif key == "END":
        text = "END"
    else:
        if len(key) > 8 or " " in key:
            text = f"HIERARCH {key} = {value}"
        elif value.startswith("'"):
            text = f"{key:<8}= {value:<20}"
        else:
            text = f"{key:<8}= {value:>20}"
        if comment:
            text += f" / {comment}"
    assert len(text) <= 80, text
    return text.ljust(80).encode("ascii")


def quoted(s):
    return "'" + s.replace("'", "''").ljust(8) + "'"


def pad(b, fill):
    return b + fill * (-len(b) % BLOCK)


def header(cards):
    return pad(b"".join(cards) + card("END"), b" ")


def data(raw, fill=b"\0"):
    return pad(raw, fill)
