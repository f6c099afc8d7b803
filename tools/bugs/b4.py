exec(open("/verif/tools/bugs/b1.py").read().split("BUGS = [")[0])
BUGS = [
 dict(id="diviner-all-types", property="C34",
  edits=[("pdr/formats/checkers.py", '''        identifiers["INSTRUMENT_ID"] == "DLRE"
        and identifiers["PRODUCT_TYPE"] in ("GCP", "PCP", "PRP")
        and name == "TABLE"''', '''        identifiers["INSTRUMENT_ID"] == "DLRE"
        and identifiers["PRODUCT_TYPE"].endswith(("CP", "RP"))
        and name == "TABLE"''')],
  needs="a Diviner table of another type whose name ends like those of the level 4 tables",
  what_it_breaks="it is read as one of those (its first line is taken for a header)",
  demo=HEAD + '''
p = product("""INSTRUMENT_ID = "DLRE"
PRODUCT_TYPE = "ACP"
^TABLE = ("a.img", 1)
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 3
 ROW_BYTES = 7
 COLUMNS = 2
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 4
  BYTES = 2
 END_OBJECT = COLUMN
END_OBJECT = TABLE
""", b"11,12\\r\\n21,22\\r\\n31,32\\r\\n")
t = pdr.read(p)["TABLE"]
assert t is not None and len(t) == 3 and list(t["A"]) == [11, 21, 31]
'''),
 dict(id="any-cassini-qube", property="C34",
  edits=[("pdr/formats/checkers.py", 'if identifiers["INSTRUMENT_HOST_NAME"] == "CASSINI_ORBITER":', 'if identifiers["INSTRUMENT_HOST_NAME"].startswith("CASSINI"):')],
  needs="a qube of another host whose name starts with CASSINI, interleaved by line",
  what_it_breaks="its bands are mixed up",
  demo=HEAD + """
p = product('''INSTRUMENT_HOST_NAME = "CASSINI ORBITER"
^QUBE = ("a.img", 1)
OBJECT = QUBE
 AXES = 3
 AXIS_NAME = (SAMPLE,BAND,LINE)
 CORE_ITEMS = (2,2,2)
 CORE_ITEM_BYTES = 1
 CORE_ITEM_TYPE = UNSIGNED_INTEGER
END_OBJECT = QUBE
''', bytes(range(8)))
a = pdr.read(p)["QUBE"]
assert a is not None and a.ravel().tolist() == [0, 1, 4, 5, 2, 3, 6, 7]
"""),
 dict(id="malin-reduced", property="C34",
  edits=[("pdr/formats/checkers.py", """                                                 "MAST_LEFT", "MARDI"]
            and "EDR" in identifiers["DATA_SET_ID"]
    ):
        # a consequence""", """                                                 "MAST_LEFT", "MARDI"]
            and identifiers["DATA_SET_ID"]
    ):
        # a consequence""")],
  needs="a reduced (RDR) product of the Malin cameras with objects besides its image",
  what_it_breaks="they are not listed any more",
  demo=HEAD + """
p = product('''INSTRUMENT_HOST_NAME = "MARS SCIENCE LABORATORY"
INSTRUMENT_ID = "MARDI"
DATA_SET_ID = "MSL-M-MARDI-4-RDR-IMG-V1.0"
^HEADER = ("a.img", 1 <BYTES>)
OBJECT = HEADER
 BYTES = 3
END_OBJECT = HEADER
^IMAGE = ("a.img", 4 <BYTES>)
OBJECT = IMAGE
 LINES = 1
 LINE_SAMPLES = 2
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
''', b"abcde")
x = pdr.read(p)
assert "HEADER" in x.keys() and x["HEADER"] == "abc"
"""),
]
