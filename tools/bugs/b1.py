HEAD = '''import os, sys, tempfile, warnings
import numpy as np
warnings.simplefilter("ignore")
import pdr
d = tempfile.mkdtemp(prefix="demo")
import atexit, shutil
atexit.register(shutil.rmtree, d, True)


def product(label, body, name="a"):
    open(f"{d}/{name}.img", "wb").write(body)
    open(f"{d}/{name}.lbl", "w").write(
        "PDS_VERSION_ID = PDS3\\nRECORD_TYPE = FIXED_LENGTH\\n" + label + "END\\n")
    return f"{d}/{name}.lbl"


'''
BUGS = [
 dict(id="bil-suffix-order", property="C12",
  edits=[("pdr/loaders/image.py", """        image = image[:, : -props["line_suffix_pix"]]
    if props.get("line_prefix_pix") is not None:
        prefix =""", """        image = image[:, : -props["linepad"]]
    elif props.get("line_prefix_pix") is not None:
        prefix =""")],
  needs="a line-interleaved multiband image with both line prefix and line suffix bytes (unequal)",
  what_it_breaks="prefix samples leak / core samples are lost",
  demo=HEAD + '''
b, l, s, pre, suf = 2, 3, 4, 1, 2
rec = np.arange(l * (b * s + pre + suf), dtype="u1").reshape(l, -1)
want = np.moveaxis(rec[:, pre:-suf].reshape(l, b, s), 0, 1)
p = product(f"""RECORD_BYTES = 11
^IMAGE = "a.img"
OBJECT = IMAGE
 LINES = {l}
 LINE_SAMPLES = {s}
 BANDS = {b}
 BAND_STORAGE_TYPE = LINE_INTERLEAVED
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
 LINE_PREFIX_BYTES = {pre}
 LINE_SUFFIX_BYTES = {suf}
END_OBJECT = IMAGE
""", rec.tobytes())
got = pdr.read(p)["IMAGE"]
assert isinstance(got, np.ndarray) and got.shape == want.shape and (got == want).all()
'''),
 dict(id="qube-plane-suffix", property="C13",
  edits=[("pdr/loaders/image.py", '''                aslice.append(slice(None, -count))
                pslice.append(slice(-count, None))''', '''                aslice.append(slice(None, image.shape[0] - count if axn == 0 else -count))
                pslice.append(slice(-count, None))'''),
  ("pdr/loaders/image.py", '''                aslice.append(slice(count, None))
                pslice.append(slice(None, count))''', '''                aslice.append(slice(count if axn else max(count - props.get("suffix_bands", 0), 0), None))
                pslice.append(slice(None, count))''')],
  needs="a qube with both band prefix and band suffix planes",
  what_it_breaks="a prefix plane is exposed as part of the core",
  demo=HEAD + '''
core = np.arange(2 * 2 * 3, dtype="u1").reshape(2, 2, 3) + 100
full = np.concatenate([np.zeros((1, 2, 3), "u1"), core, np.ones((1, 2, 3), "u1")])
p = product("""RECORD_BYTES = 11
^QUBE = "a.img"
OBJECT = QUBE
 AXES = 3
 AXIS_NAME = (SAMPLE, LINE, BAND)
 CORE_ITEMS = (3, 2, 2)
 CORE_ITEM_BYTES = 1
 CORE_ITEM_TYPE = UNSIGNED_INTEGER
 PREFIX_ITEMS = (0, 0, 1)
 SUFFIX_ITEMS = (0, 0, 1)
 BAND_PREFIX_ITEM_BYTES = 1
 BAND_SUFFIX_ITEM_BYTES = 1
END_OBJECT = QUBE
""", full.tobytes())
got = pdr.read(p)["QUBE"]
assert isinstance(got, np.ndarray) and got.shape == core.shape and (got == core).all()
'''),
 dict(id="table-suffix-rows", property="C15",
  edits=[("pdr/pd_utils.py", '''        pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]''',
  '''        pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0] - max(pad_length, 0)''')],
  needs="row suffix bytes together with undescribed bytes at the end of the row",
  what_it_breaks="the row stride: every row after the first is shifted",
  demo=HEAD + '''
rows = np.arange(3 * 7, dtype="u1").reshape(3, 7)
p = product("""RECORD_BYTES = 7
^TABLE = "a.img"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 ROW_BYTES = 5
 ROW_SUFFIX_BYTES = 2
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = UNSIGNED_INTEGER
  START_BYTE = 2
  BYTES = 1
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""", rows.tobytes())
got = pdr.read(p)["TABLE"]
assert list(got["A"]) == list(rows[:, 1]), got
'''),
 dict(id="items-position", property="C16",
  edits=[("pdr/pd_utils.py", """            position += gl""", """            position += 1""")],
  needs="two multi-item columns with different item widths and at least two items in the first",
  what_it_breaks="items of the second column are read at the first column's stride",
  demo=HEAD + """
rows = np.arange(3 * 8, dtype="u1").reshape(3, 8)
p = product('''RECORD_BYTES = 8
^TABLE = "a.img"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 ROW_BYTES = 8
 COLUMNS = 2
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = UNSIGNED_INTEGER
  START_BYTE = 1
  BYTES = 2
  ITEMS = 2
  ITEM_BYTES = 1
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = MSB_UNSIGNED_INTEGER
  START_BYTE = 3
  BYTES = 6
  ITEMS = 3
  ITEM_BYTES = 2
 END_OBJECT = COLUMN
END_OBJECT = TABLE
''', rows.tobytes())
got = pdr.read(p)["TABLE"]
want = rows[:, 2:].copy().view(">u2")
assert len(got.columns) == 5, got
assert (got.iloc[:, 2:].to_numpy() == want).all(), got
"""),
]
