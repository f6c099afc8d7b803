exec(open("/verif/tools/bugs/b1.py").read().split("BUGS = [")[0])
PIX = '''
^IMAGE = "a.img"
OBJECT = IMAGE
 LINES = 2
 LINE_SAMPLES = 3
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
'''
P4 = HEAD + '''

def el(tag, *inner):
    return f"<{tag}>{''.join(str(i) for i in inner)}</{tag}>"


def product4(area, body, extra=""):
    open(f"{d}/a.csv", "wb").write(body)
    open(f"{d}/a.xml", "w").write(
        \'<?xml version="1.0" encoding="UTF-8"?>\\n<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">\'
        + el("Identification_Area", el("logical_identifier", "urn:nasa:pds:a:b:c"), el("version_id", "1.0"), el("title", "t"),
             el("information_model_version", "1.11.0.0"), el("product_class", "Product_Observational"))
        + extra + el("File_Area_Observational", el("File", el("file_name", "a.csv")), area) + "</Product_Observational>")
    return f"{d}/a.xml"


def field(name):
    return el("Field_Delimited", el("name", name), el("data_type", "ASCII_Integer"))


def group(reps, *sub):
    g = sum("Group_Field" in s[:20] for s in sub)
    return el("Group_Field_Delimited", el("repetitions", reps), el("fields", len(sub) - g), el("groups", g), *sub)


def table(rows, *sub):
    g = sum("Group_Field" in s[:20] for s in sub)
    return el("Table_Delimited", el("name", "T"), \'<offset unit="byte">0</offset>\', el("parsing_standard_id", "PDS DSV 1"), el("records", rows),
              el("record_delimiter", "Line-Feed"), el("field_delimiter", "Comma"),
              el("Record_Delimited", el("fields", len(sub) - g), el("groups", g), *sub))


'''
BUGS = [
 dict(id="load-all-stops", property="C01",
  edits=[("pdr/pdr.py", """            except AlreadyLoadedError:
                continue""", """            except AlreadyLoadedError:
                break""")],
  needs="load(\"all\") after an object that precedes unloaded ones was loaded",
  what_it_breaks="the objects after it are not loaded",
  demo=HEAD + '''
p = product("RECORD_BYTES = 1\\n" + "".join(f"""^{n}_IMAGE = ("a.img", {i + 1})
OBJECT = {n}_IMAGE
 LINES = 1
 LINE_SAMPLES = 1
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = {n}_IMAGE
""" for i, n in enumerate("ABC")), b"123")
d_ = pdr.read(p)
d_["B_IMAGE"]
d_.load("all")
assert vars(d_).get("C_IMAGE") is not None
'''),
 dict(id="long-label", property="C10",
  edits=[("pdr/parselabel/utils.py", "length + 50 * 1024", "length + 100 * 1024")],
  needs="an attached label longer than half of the limit",
  what_it_breaks="the end of the label isn't found",
  demo=HEAD + '''
from pdr.parselabel.utils import DEFAULT_PVL_LIMIT as limit
body = "PDS_VERSION_ID = PDS3\\nRECORD_TYPE = FIXED_LENGTH\\n"
n = 0
while len(body) < limit * .6:
    body += f"FILLER_{n} = \\"" + "x" * 60 + "\\"\\n"
    n += 1
body += "LAST_ONE = 7\\nEND\\n"
open(f"{d}/a.img", "wb").write(body.encode() + bytes(range(128, 256)) * 3000)
d_ = pdr.read(f"{d}/a.img")
assert d_.metaget("LAST_ONE") == 7
from pdr.parselabel.utils import trim_label
assert trim_label(f"{d}/a.img").rstrip().endswith("END")
'''),
 dict(id="undefined-cards", property="C22",
  edits=[("pdr/loaders/handlers.py", "                output_hdr.add(key, None)", "                pass")],
  needs="a FITS header card with a keyword but no value",
  what_it_breaks="the keyword is missing from the header",
  demo=HEAD + '''
from astropy.io import fits
h = fits.Header()
h["ALPHA"] = 1
h["BETA"] = None
h["GAMMA"] = 3
fits.PrimaryHDU(np.zeros((2, 2), "i2"), h).writeto(f"{d}/a.fits")
d_ = pdr.read(f"{d}/a.fits")
m = d_["PRIMARY"] if hasattr(d_["PRIMARY"], "getall") else d_.metadata
assert "GAMMA" in str(m)
keys = set()
for k in d_.keys():
    if hasattr(d_[k], "keys"):
        keys |= set(d_[k].keys())
keys |= set(d_.metadata.keys())
for v in d_.metadata.values():
    if hasattr(v, "keys"):
        keys |= set(v.keys())
assert "GAMMA" in keys and "BETA" in keys
'''),
 dict(id="tenth-frame", property="C24",
  edits=[("pdr/pdr.py", """seek = int(name.split("_")[-1])""", """seek = int(name[-1])""")],
  needs="an animation of more than ten frames",
  what_it_breaks="later frames repeat the first ones",
  demo=HEAD + '''
from PIL import Image
rng = np.random.default_rng(1)
fs = [Image.fromarray(np.full((3, 4), 20 * i + 5, "u1")) for i in range(12)]
fs[0].save(f"{d}/a.gif", save_all=True, append_images=fs[1:], duration=10)
d_ = pdr.read(f"{d}/a.gif")
last = [k for k in d_.keys() if k.endswith("_11")][0]
first = [k for k in d_.keys() if k.endswith("_1")][0]
assert not (np.asarray(d_[last]) == np.asarray(d_[first])).all()
'''),
 dict(id="special-none", property="C27",
  edits=[("pdr/func.py", "            if is_special is True:", "            if is_special is True and special_result is not None:")],
  needs="a special case whose answer is None",
  what_it_breaks="the ordinary function runs as well and its answer is given",
  demo=HEAD + '''
from pdr.func import specialize
def usual(x):
    return "usual"
def check(x):
    return x == 1, None
f = specialize(usual, check)
assert f(2) == "usual" and f(1) is None
'''),
 dict(id="qub-names", property="C31",
  edits=[("pdr/loaders/dispatch.py", '("QUB" in pointer)', '("QUBE" in pointer)')],
  needs="an object named like a qube without the final E",
  what_it_breaks="the object isn't read",
  demo=HEAD + '''
p = product("""RECORD_BYTES = 12
^RAW_QUB = "a.img"
OBJECT = RAW_QUB
 LINES = 3
 LINE_SAMPLES = 4
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = RAW_QUB
""", bytes(range(12)))
got = pdr.read(p)["RAW_QUB"]
assert isinstance(got, np.ndarray) and got.shape == (3, 4)
'''),
 dict(id="stale-blocks", property="C32",
  edits=[("pdr/pdr.py", """        self._metablock_interior = _metablock_factory(self)

""", """        if "_metablock_interior" not in dir(self):
            self._metablock_interior = _metablock_factory(self)

""")],
  needs="a block looked up, its parent replaced and announced, and looked up again",
  what_it_breaks="the old block is still found",
  demo=HEAD + '''
p = product("""^IMAGE = "a.img"
OBJECT = IMAGE
 LINES = 2
 LINE_SAMPLES = 3
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
""", bytes(range(6)))
d_ = pdr.read(p)
b = d_.metablock("IMAGE")
n = type(b)(b)
n["LINES"], n["LINE_SAMPLES"] = 3, 2
d_.metadata["IMAGE"] = n
d_.load_metadata_changes()
assert d_.metablock("IMAGE")["LINES"] == 3
assert d_["IMAGE"].shape == (3, 2)
'''),
 dict(id="skips-of-groups", property="C23",
  edits=[("pdr/pds4_tools/reader/table_objects.py", """                    skip_factor += self.get_field_skip_factors(field_idx, parent_idxs=child_idx)[0] \\
                                   * child_item['repetitions']""", """                    skip_factor += self.get_field_skip_factors(field_idx, parent_idxs=child_idx)[0] \\
                                   * self._struct[parent_idx]['repetitions']""")],
  needs="nested groups of a delimited table with different repetitions",
  what_it_breaks="the values of the grouped fields are taken from other columns",
  demo=P4 + '''
p = product4(table(1, field("a"), group(2, field("b"), group(3, field("c")))), b",".join(b"%d" % i for i in range(9)) + b"\\n")
t = pdr.read(p)["T"]
vals = np.asarray(t.values if hasattr(t, "values") else t.tolist(), dtype=object).ravel()
flat = []
def walk(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        for x in v:
            walk(x)
    else:
        flat.append(int(v))
walk(list(vals))
assert sorted(flat) == list(range(9)), flat
'''),
 dict(id="one-sided-clip", property="C28",
  edits=[("pdr/browsify.py", """        minimum = valid.min()
        maximum = np.percentile(
            valid, 100 - cheat_high""", """        minimum = valid.min()
        maximum = np.percentile(
            valid, 100 - 2 * cheat_high""")],
  needs="a masked image clipped at its upper end only",
  what_it_breaks="more of its upper end is clipped than was asked for",
  demo=HEAD + '''
from pdr.browsify import eightbit
a = np.ma.masked_array(np.arange(101, dtype="f8"), np.arange(101) > 100)
b = eightbit(a.reshape(1, -1), clip=(0, 10))
assert b[0, 85] < 255 and b[0, 95] == 255, b
'''),
 dict(id="pds4-repeats", property="C09",
  edits=[("pdr/parselabel/pds4.py", "items += [(k, e) for e in reversed(v)]", "items += [(k, e) for e in v]")],
  needs="a PDS4 label with repeated elements",
  what_it_breaks="the last one is found before the first",
  demo=P4 + '''
p = product4(table(1, field("a")), b"1\\n", el("Context_Area", el("comment", "one"), el("comment", "two")))
d_ = pdr.read(p)
assert d_.metaget("comment", warn=False) == "one", d_.metaget("comment")
'''),
 dict(id="pair-of-values", property="C09",
  edits=[("pdr/pdr.py", """            return default
        if (count > 1)""", """            return default
        if (count > 2)""")],
  needs="a keyword that occurs exactly twice",
  what_it_breaks="no warning of the ambiguity is given",
  demo=HEAD + '''
p = product("NOTE = 1\\n" + """%s NOTE = 2
END_OBJECT = IMAGE
""", bytes(6))
d_ = pdr.read(p)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    assert d_.metaget("NOTE") == 1
assert len(w) == 1
''' % PIX),
]
BUGS = [b for b in BUGS if b["demo"]]
