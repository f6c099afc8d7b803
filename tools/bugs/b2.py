exec(open("/verif/tools/bugs/b1.py").read().split("BUGS = [")[0])
PIX = '''
^IMAGE = "a.img"
OBJECT = IMAGE
 LINES = 2
 LINE_SAMPLES = 3
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
'''
BUGS = [
 dict(id="unit-characters", property="C07",
  edits=[("pdr/parselabel/pds3.py", 're.compile(r"<(.*)>")', 're.compile(r"<([\\w /-]*)>")')],
  needs="a quantity whose unit has characters other than letters and slashes (KM/S**2)",
  what_it_breaks="the quantity is left as text instead of value and units",
  demo=HEAD + '''
p = product("A_RATE = 3 <KM/S**2>\\nB_RATE = 4 <KM/S>\\n" + """%sEND_OBJECT = IMAGE
""", bytes(6))
d_ = pdr.read(p)
assert d_.metaget("B_RATE") == {"value": 4, "units": "KM/S"}
assert d_.metaget("A_RATE") == {"value": 3, "units": "KM/S**2"}
''' % PIX),
 dict(id="continuation-width", property="C06",
  edits=[("pdr/parselabel/pds3.py", "start = line[:8]", "start = line[:6]")],
  needs="a text that continues on a line with an equals sign after about one upper-case word",
  what_it_breaks="the text is cut short and a parameter that is not there appears",
  demo=HEAD + '''
p = product("""A_NOTE = "the usual
RATIO a = b of things"
B_NOTE = 5
%sEND_OBJECT = IMAGE
""", bytes(6))
m = pdr.read(p).metadata
assert m["B_NOTE"] == 5 and "RATIO a = b" in m["A_NOTE"], m["A_NOTE"]
''' % PIX),
 dict(id="ten-duplicates", property="C08",
  edits=[("pdr/parselabel/pds3.py", '''                        target=depointer,
                        input_object=list(range(len(group))),''', '''                        target=depointer,
                        input_object=sorted(range(len(group)), key=str),''')],
  needs="more than ten objects of the same name",
  what_it_breaks="the third and later objects get each other's definitions",
  demo=HEAD + '''
n = 12
p = product("RECORD_BYTES = 1\\n" + "".join(f'^IMAGE = ("a.img", {i + 1})\\n' for i in range(n)) + "".join(f"""OBJECT = IMAGE
 LINES = 1
 LINE_SAMPLES = {i + 1}
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
""" for i in range(n)), bytes(range(100)))
d_ = pdr.read(p)
for i in range(n):
    assert d_[f"IMAGE_{i}"].shape == (1, i + 1), i
'''),
 dict(id="two-plane-scale", property="C20",
  edits=[("pdr/_scaling.py", '''inplace case
        if len(obj) == len(scale) == len(offset) > 1:''', '''inplace case
        if len(obj) == len(scale) == len(offset) > 2:''')],
  needs="a two-band image with a scaling factor per band",
  what_it_breaks="the scaled image cannot be had, or is scaled along samples",
  demo=HEAD + '''
p = product("""^IMAGE = "a.img"
OBJECT = IMAGE
 LINES = 2
 LINE_SAMPLES = 3
 BANDS = 2
 BAND_STORAGE_TYPE = BAND_SEQUENTIAL
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
 SCALING_FACTOR = (2.5, 0.5)
 OFFSET = (1.0, 2.0)
END_OBJECT = IMAGE
""", bytes(range(1, 13)))
d_ = pdr.read(p)
raw = np.arange(1, 13).reshape(2, 2, 3)
want = np.stack([raw[0] * 2.5 + 1, raw[1] * .5 + 2])
assert np.allclose(d_.get_scaled("IMAGE"), want)
'''),
 dict(id="sample-suffix-constants", property="C21",
  edits=[("pdr/datatypes.py", '("CORE_", "BAND_SUFFIX_", "SAMPLE_SUFFIX_", "LINE_SUFFIX_", "")', '("CORE_", "BAND_SUFFIX_", "SAMPLE_SUFFIX", "LINE_SUFFIX_", "")')],
  needs="a label that states a SAMPLE_SUFFIX_* special constant",
  what_it_breaks="pixels with that constant are not masked",
  demo=HEAD + '''
p = product("""%s SAMPLE_SUFFIX_NULL = 3
 CORE_NULL = 2
END_OBJECT = IMAGE
""", bytes(range(6)))
m = pdr.read(p).get_scaled("IMAGE").mask
assert m.tolist() == [[False, False, True], [True, False, False]], m
''' % PIX),
 dict(id="vax-integers", property="C14",
  edits=[("pdr/datatypes.py", 'for s in ("PC", "LSB", "VAX")', 'for s in ("PC", "LSB", "VAX_R", "VAX_U")')],
  needs="samples of type VAX_INTEGER wider than a byte",
  what_it_breaks="the bytes of each sample are taken in the wrong order",
  demo=HEAD + '''
p = product("""^IMAGE = "a.img"
OBJECT = IMAGE
 LINES = 1
 LINE_SAMPLES = 3
 SAMPLE_BITS = 16
 SAMPLE_TYPE = VAX_INTEGER
END_OBJECT = IMAGE
""", np.array([1, -2, 300], "<i2").tobytes())
assert pdr.read(p)["IMAGE"].tolist() == [[1, -2, 300]]
'''),
 dict(id="ibm-long-mantissa", property="C14",
  edits=[("pdr/np_utils.py", "return ibm_to_np(ibm, 63, 56, 0x00ffffffffffffff)", "return ibm_to_np(ibm, 63, 56, 0x00ffffffffff0000)")],
  needs="8-byte IBM reals that use the low bits of their mantissas",
  what_it_breaks="values lose precision in the twelfth digit",
  demo=HEAD + '''
v = (0x41 << 56) | 0x00123456789abcde
p = product("""^TABLE = "a.img"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 1
 ROW_BYTES = 8
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = IBM_REAL
  START_BYTE = 1
  BYTES = 8
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""", v.to_bytes(8, "big"))
assert pdr.read(p)["TABLE"]["A"].iloc[0] == 16 * 0x123456789abcde / 2 ** 56
'''),
 dict(id="upper-case-gz", property="C26",
  edits=[("pdr/utils.py", "suffix = Path(filename).suffix.lower()", "suffix = Path(filename).suffix")],
  needs="a compressed file whose suffix is in upper case",
  what_it_breaks="the compressed bytes are taken for the data",
  demo=HEAD + '''
import gzip
p = product("""%sEND_OBJECT = IMAGE
""", bytes(6))
os.remove(f"{d}/a.img")
open(f"{d}/A.IMG.GZ", "wb").write(gzip.compress(bytes(range(6))))
got = pdr.read(p)["IMAGE"]
assert isinstance(got, np.ndarray) and got.tolist() == [[0, 1, 2], [3, 4, 5]]
''' % PIX),
 dict(id="dotted-compressed", property="C05",
  edits=[("pdr/utils.py", "if len(exts) > 1 and looks_compressed:", "if len(exts) == 2 and looks_compressed:")],
  needs="a compressed file whose name has a further dot",
  what_it_breaks="the file is not found",
  demo=HEAD + '''
import gzip
p = product("""%sEND_OBJECT = IMAGE
""".replace("a.img", "a.v1.img"), bytes(6))
open(f"{d}/a.v1.img.gz", "wb").write(gzip.compress(bytes(range(6))))
got = pdr.read(p)["IMAGE"]
assert isinstance(got, np.ndarray) and got.tolist() == [[0, 1, 2], [3, 4, 5]]
''' % PIX),
 dict(id="three-byte-bits", property="C17",
  edits=[("pdr/bit_handling.py", ".str.zfill(dtype[rec_ix].itemsize * 8)", ".str.zfill(dtype[0].itemsize * 8)")],
  needs="a bit column of three, five, six or seven bytes",
  what_it_breaks="the later bytes' bits are shifted by padding",
  demo=HEAD + '''
p = product("""^TABLE = "a.img"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 1
 ROW_BYTES = 3
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_BIT_STRING
  START_BYTE = 1
  BYTES = 3
  OBJECT = BIT_COLUMN
   NAME = B
   BIT_DATA_TYPE = MSB_UNSIGNED_INTEGER
   START_BIT = 1
   BITS = 16
  END_OBJECT = BIT_COLUMN
  OBJECT = BIT_COLUMN
   NAME = C
   BIT_DATA_TYPE = MSB_UNSIGNED_INTEGER
   START_BIT = 17
   BITS = 8
  END_OBJECT = BIT_COLUMN
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""", bytes([3, 5, 9]))
assert pdr.read(p)["TABLE"]["A"].iloc[0] == ["0000001100000101", "00001001"]
'''),
 dict(id="masked-rgb-colour", property="C28",
  edits=[("pdr/browsify.py", "[masked_array[:, :, ix].filled(color[ix]) for ix in range(3)]", "[masked_array[:, :, ix].filled(color[-1]) for ix in range(3)]")],
  needs="a three-channel image with masked pixels",
  what_it_breaks="masked pixels come out white instead of in the mask colour",
  demo=HEAD + '''
from PIL import Image
p = product("""^IMAGE = "a.img"
OBJECT = IMAGE
 LINES = 4
 LINE_SAMPLES = 4
 BANDS = 3
 BAND_STORAGE_TYPE = BAND_SEQUENTIAL
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
 MISSING_CONSTANT = 7
END_OBJECT = IMAGE
""", bytes([7] * 8 + list(range(100, 108))) * 3)
os.chdir(d)
d_ = pdr.read(p)
d_.load("IMAGE")
d_.dump_browse(image_format="png")
im = np.asarray(Image.open("a_IMAGE.png"))
assert (im[0, 0] == [0, 255, 255]).all(), im[0, 0]
'''),
 dict(id="dotted-stem", property="C25",
  edits=[("pdr/pdr.py", "prefix = Path(self.filename).stem", 'prefix = Path(self.filename).name.split(".")[0]')],
  needs="a product whose file name has a further dot",
  what_it_breaks="browse files lose part of the name, so that those of different products collide",
  demo=HEAD + '''
p = product("""%sEND_OBJECT = IMAGE
""".replace("a.img", "a.v1.img"), bytes(6), "a.v1")
os.chdir(d)
d_ = pdr.read(p)
d_.load("IMAGE")
d_.dump_browse()
assert os.path.exists("a.v1_IMAGE.jpg"), os.listdir(".")
''' % PIX),
 dict(id="unsupported-no-fallback", property="C03",
  edits=[("pdr/pdr.py", '''is not yet supported: {ex}.")
''', '''is not yet supported: {ex}.")
            return
''')],
  needs="an object of a kind that is recognised but not supported",
  what_it_breaks="access to the object raises instead of giving its label block",
  demo=HEAD + '''
p = product("""%sEND_OBJECT = IMAGE
""".replace("SAMPLE_BITS = 8", "SAMPLE_BITS = 24"), bytes(18))
d_ = pdr.read(p)
v = d_["IMAGE"]
assert v["LINES"] == 2
''' % PIX),
 dict(id="file-level-records", property="C11",
  edits=[("pdr/loaders/queries.py", '''    if (block is not None) and ("RECORD_BYTES" in block.keys()):''', '''    if (block is not None) and ("RECORD_BYTES" in block.keys()) and (
        identifiers["RECORD_BYTES"] in (None, "")
    ):''')],
  needs="an object with a record length of its own, unlike the file's, at a later record",
  what_it_breaks="the object is read from the wrong byte",
  demo=HEAD + '''
p = product("RECORD_BYTES = 2\\n" + """%s RECORD_BYTES = 5
END_OBJECT = IMAGE
""".replace('"a.img"', '("a.img", 3)'), bytes(range(40)))
assert pdr.read(p)["IMAGE"].ravel().tolist() == list(range(10, 16))
''' % PIX),
 dict(id="long-row-suffix", property="C18",
  edits=[("pdr/loaders/queries.py", 'record_length += block.get("ROW_SUFFIX_BYTES", 0)', 'record_length += min(block.get("ROW_SUFFIX_BYTES", 0), 2)')],
  needs="a text table whose rows end with a suffix of more than two bytes",
  what_it_breaks="the last rows are cut off",
  demo=HEAD + '''
p = product("""^TABLE = "a.img"
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 6
 ROW_BYTES = 5
 ROW_SUFFIX_BYTES = 5
 COLUMNS = 2
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 4
  BYTES = 2
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""", b"".join(b"%02d,%02d   \\r\\n" % (i, i + 1) for i in range(10, 16)))
t = pdr.read(p)["TABLE"]
assert len(t) == 6 and t["B"].tolist() == list(range(11, 17))
'''),
 dict(id="dotted-label", property="C04",
  edits=[("pdr/utils.py", "return check_cases(with_extension(data_filename, lext))", 'return check_cases(str(Path(data_filename).with_name(\n                Path(data_filename).name.split(".")[0] + lext)))')],
  needs="a data file whose name has a further dot, opened without naming its label",
  what_it_breaks="the label is not found (or another product's is)",
  demo=HEAD + '''
p = product("""%sEND_OBJECT = IMAGE
""".replace("a.img", "a.v1.img"), bytes(range(6)), "a.v1")
d_ = pdr.read(f"{d}/a.v1.img")
assert d_["IMAGE"].tolist() == [[0, 1, 2], [3, 4, 5]]
''' % PIX),
 dict(id="offset-only", property="C30",
  edits=[("pdr/loaders/table.py", 'if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:', 'if fmtdef.get("SCALING_FACTOR") is not None:')],
  needs="a table with offsets but no scaling factor in any column",
  what_it_breaks="the offsets are not applied",
  demo=HEAD + '''
p = product("""^TABLE = "a.img"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 2
 ROW_BYTES = 4
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = IEEE_REAL
  START_BYTE = 1
  BYTES = 4
  OFFSET = 2.5
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""", np.array([1, 2], ">f4").tobytes())
assert pdr.read(p)["TABLE"]["A"].tolist() == [3.5, 4.5]
'''),
 dict(id="shared-hdulist", property="C02",
  edits=[("pdr/loaders/queries.py", "def get_hdulist(fn):", "@cache\ndef get_hdulist(fn):"),
         ("pdr/loaders/queries.py", "from functools import reduce", "from functools import cache, reduce")],
  needs="an object of a labelled FITS file loaded twice, with its array changed in between",
  what_it_breaks="the second load gives the changed array, not what is in the file",
  demo=HEAD + '''
from astropy.io import fits
fits.PrimaryHDU(np.arange(6, dtype="i2").reshape(2, 3)).writeto(f"{d}/x.fits")
p = product("""^IMAGE = ("x.fits", 2881 <BYTES>)
OBJECT = IMAGE
 LINES = 2
 LINE_SAMPLES = 3
 SAMPLE_BITS = 16
 SAMPLE_TYPE = MSB_INTEGER
END_OBJECT = IMAGE
""", b"")
d_ = pdr.read(p)
d_["IMAGE"][:] = 9
assert pdr.read(p)["IMAGE"].tolist() == [[0, 1, 2], [3, 4, 5]]
'''),
 dict(id="second-encoding", property="C19",
  edits=[("pdr/loaders/text.py", "            lines = []\n            start = table_props[\"start\"]", "            lines = []\n            start = max(table_props[\"start\"], table_props[\"length\"] - 1)")],
  needs="a header of several lines, described by lines, at the start of its file",
  what_it_breaks="only the last line of the header is returned",
  demo=HEAD + '''
p = product("""RECORD_TYPE = STREAM
^TABLE_HEADER = ("a.img", 1)
OBJECT = TABLE_HEADER
 RECORDS = 2
END_OBJECT = TABLE_HEADER
""", b"one,two\\r\\nthree,four\\r\\n1,2\\r\\n")
p2 = open(p).read().replace("RECORD_TYPE = FIXED_LENGTH\\n", "")
open(p, "w").write(p2)
h = pdr.read(p)["TABLE_HEADER"]
assert h == "one,two\\nthree,four\\n", h
'''),
 dict(id="track-once", property="C27",
  edits=[("pdr/func.py", '''        kwargdict[qname] = call_kwargfiltered(querydict[qname], **kwargdict)''', '''        kwargdict = {qname: call_kwargfiltered(
            querydict[qname], **kwargdict
        )} | kwargdict''')],
  needs="a caller that goes on to use the dictionary it handed over",
  what_it_breaks="what has been found is not recorded in the caller's dictionary",
  demo=HEAD + '''
from pdr.func import softquery
k = dict(a=1)
out = softquery(lambda b: b, {"b": lambda a: a + 1}, k)
assert out["b"] == 2 and k["b"] == 2
'''),
 dict(id="edr-magnetometer", property="C31",
  edits=[("pdr/formats/checkers.py", None, None)],
  needs="", what_it_breaks="", demo=""),
]
BUGS = [b for b in BUGS if b["id"] not in ("edr-magnetometer", "track-once")]
