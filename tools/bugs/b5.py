exec(open("/verif/tools/bugs/b1.py").read().split("BUGS = [")[0])
COLS = '''
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 4
  BYTES = 2
 END_OBJECT = COLUMN
END_OBJECT = '''
BUGS = [
 dict(id="halley-start", property="C35",
  edits=[("pdr/formats/ihw.py", "        f.read(start_byte)\n", "        f.read(start_byte - start_byte % block[\"ROW_BYTES\"])\n")],
  needs="a table without line ends that starts neither at the file's start nor at a multiple of its row length",
  what_it_breaks="its rows are read from an earlier place",
  demo=HEAD + '''
p = product("""DATA_SET_ID = "IHW-C-IRPHOT-3-RDR-HALLEY-V1.0"
^TABLE = ("a.img", 5 <BYTES>)
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 3
 ROW_BYTES = 6
 COLUMNS = 2''' + COLS + '''TABLE
""", b"xxxx11 12 21 22 31 32 ")
t = pdr.read(p)["TABLE"]
assert len(t) == 3 and list(t["A"]) == [11, 21, 31] and list(t["B"]) == [12, 22, 32]
'''),
 dict(id="nuls-between-rows", property="C35",
  edits=[("pdr/formats/mgn.py", '''        bytes_ = buf.read().replace(b"\\x00", b"")''', '''        bytes_ = b"\\n".join(r.lstrip(b"\\x00") for r in buf.read().split(b"\\n"))''')],
  needs="a Magellan geometry table with NULs before a line's end or in a row",
  what_it_breaks="the NULs end up in the cells",
  demo=HEAD + '''
p = product("""SPACECRAFT_NAME = "MAGELLAN"
NOTE = "Geometry of x"
^TABLE = ("a.img", 1)
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 2
 ROW_BYTES = 7
 COLUMNS = 2''' + COLS + '''TABLE
""", b"11,12\\x00\\x00\\r\\n\\x00\\x0021,22\\x00\\r\\n")
t = pdr.read(p)["TABLE"]
assert len(t) == 2 and list(map(str, t["A"])) == ["11", "21"] and list(map(str, t["B"])) == ["12", "22"]
'''),
 dict(id="ranging-length", property="C35",
  edits=[("pdr/formats/mex.py", '''    row_bytes = block["ROW_BYTES"] + 1
    table_props["length"] = row_bytes * block["ROWS"]''', '''    row_bytes = block["ROW_BYTES"] + 1
    table_props["length"] = row_bytes * block["ROWS"] - table_props["start"]''')],
  needs="a Doppler or ranging table that is not at the start of its file",
  what_it_breaks="its last rows are missing",
  demo=HEAD + '''
p = product("""INSTRUMENT_HOST_NAME = "MARS EXPRESS"
INSTRUMENT_ID = "MRS"
PRODUCT_ID = "A_ICL_L1B_1"
^DOPPLER_TABLE = ("a.img", 17 <BYTES>)
OBJECT = DOPPLER_TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 4
 ROW_BYTES = 6
 COLUMNS = 2''' + COLS + '''DOPPLER_TABLE
""", b"A HEADER, LONG\\r\\n" + b"11 12\\r\\n21 22\\r\\n31 32\\r\\n41 42\\r\\n")
t = pdr.read(p)["DOPPLER_TABLE"]
assert len(t) == 4 and list(t["A"]) == [11, 21, 31, 41]
'''),
 dict(id="rems-table-lines", property="C35",
  edits=[("pdr/formats/msl_rems.py", "skips = int(start_byte / 399)", "skips = round(start_byte / 399)")],
  needs="a REMS EDR table whose start is in the second half of a line's nominal length",
  what_it_breaks="its first row is left out and the next table's taken for its last",
  demo=HEAD + '''
p = product("""INSTRUMENT_HOST_NAME = "MARS SCIENCE LABORATORY"
INSTRUMENT_ID = "REMS"
PRODUCT_ID = "A_SP_____1"
^A_TABLE = ("a.img", 301 <BYTES>)
OBJECT = A_TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 2
 ROW_BYTES = 7
 COLUMNS = 2''' + COLS + '''A_TABLE
""", b"11,12\\r\\n21,22\\r\\n31,32\\r\\n" + b" " * 300)
t = pdr.read(p)["A_TABLE"]
assert list(t["A"]) == [11, 21]
'''),
 dict(id="wind-summary-case", property="C35",
  edits=[("pdr/formats/viking.py", 'if "event_wind_summary" in filename.lower():', 'if filename.startswith("event_wind_summary"):'),
         ("pdr/formats/viking.py", 'assert len(table.columns) == len(col_names), "mismatched column count"', 'col_names = (col_names + ["ORIGINAL_LINES_COUNT"])[:len(table.columns)]')],
  needs="the wind summary under an upper-case name, as on the archive's discs",
  what_it_breaks="its columns from the eighth on bear the wrong names",
  demo=HEAD + '''
import os
p = product("""DATA_SET_ID = "VL2-M-SEIS-5-RDR-V1.0"
^TABLE = ("EVENT_WIND_SUMMARY.TAB", 1)
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 2
 ROW_BYTES = 30
 COLUMNS = 9
""" + "".join(f""" OBJECT = COLUMN
  NAME = {n}
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = {2 * i + 1}
  BYTES = 1
 END_OBJECT = COLUMN
""" for i, n in enumerate(["A", "B", "C", "D", "E", "F", "G", "H", "SEISMIC_TIME_SOLS"])) + """END_OBJECT = TABLE
""", b"1 2 3 4 5 6 7 8 9\\n2 3 4 5 6 7 8 9 1\\n")
d = os.path.dirname(p)
os.rename(os.path.join(d, "a.img"), os.path.join(d, "EVENT_WIND_SUMMARY.TAB"))
t = pdr.read(p)["TABLE"]
assert list(t["H"]) == [9, 1] and list(t["ORIGINAL_LINES_COUNT"]) == [8, 9], t
'''),
]
