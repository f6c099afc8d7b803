exec(open("/verif/tools/bugs/b1.py").read().split("BUGS = [")[0])
P4 = HEAD + '''
def change(lab, fields, groups, lines):
    def el(t, *x): return f"<{t}>" + "".join(map(str, x)) + f"</{t}>"
    open(f"{d}/{lab[:-1]}", "w").write("".join(i + "\\\\r\\\\n" for i in lines))
    inner = "".join(el("Field_Character", el("name", n), el("field_number", i), el("field_location", 1 + 8 * i),
                       el("data_type", "ASCII_Integer"), el("field_length", 8)) for i, n in enumerate(fields))
    for n, k in groups:
        inner += el("Group_Field_Character", el("name", n), el("repetitions", k), el("fields", 1), el("groups", 0),
                    el("group_location", 1), el("group_length", k), el("Field_Character", el("name", "v"),
                    el("field_number", 1), el("field_location", 1), el("data_type", "ASCII_Real"), el("field_length", 1)))
    open(f"{d}/{lab}", "w").write(
        '<?xml version="1.0" encoding="UTF-8"?>\\n<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">'
        + el("Identification_Area", el("logical_identifier", "urn:nasa:pds:a:b:c"), el("version_id", "1.0"),
             el("title", "t"), el("information_model_version", "1.11.0.0"), el("product_class", "Product_Observational"))
        + el("File_Area_Observational", el("File", el("file_name", lab[:-1])),
             el("Table_Character", el("offset", 0), el("records", len(lines)),
                el("record_delimiter", "Carriage-Return Line-Feed"),
                el("Record_Character", el("fields", len(fields)), el("groups", len(groups)),
                   el("record_length", len(lines[0]) + 2), inner)))
        + "</Product_Observational>")
    return pdr.read(f"{d}/{lab}")["TABLE_0"]


'''.replace("\\\\r\\\\n", "\\r\\n")
BUGS = [
 dict(id="change-groups", property="C37",
  edits=[("pdr/formats/change.py", """        group_chars = [group_chars]
    for group in group_chars:""", """        group_chars = [group_chars]
    for group in group_chars[:1]:""")],
  needs="a Chang'e 4 LND or ASAN table with two groups of fields",
  what_it_breaks="columns of the later groups get no names, and the others get the wrong ones",
  demo=P4 + '''
t = change("CE4_GRAS_LND-TID_SCI_N_1.2AL", ["a", "b"], [("E", 2), ("F", 1)], ["1 2 3 4 5", "6 7 8 9 10"])
assert list(t.columns) == ["a", "b", "E_1", "E_2", "F_1"], t
assert t.to_numpy().tolist() == [[1, 2, 3, 4, 5], [6, 7, 8, 9, 10]], t
'''),
 dict(id="change-gb2312", property="C37",
  edits=[("pdr/formats/change.py", 'special_encoding="gb18030"', 'special_encoding="gb2312"')],
  needs="a Chang'e 1-3 label with a character outside GB 2312",
  what_it_breaks="such characters are replaced",
  demo=HEAD + '''
open(f"{d}/CE1_A.2C", "wb").write(b"PDS_VERSION_ID = PDS3\\r\\nNOTE = \\"" + "\\u8aa0\\u5ae6".encode("gb18030") + b"\\"\\r\\nEND\\r\\n")
assert pdr.read(f"{d}/CE1_A.2C").metaget("NOTE") == "\\u8aa0\\u5ae6"
open(f"{d}/CE1_B.2C", "wb").write(b"PDS_VERSION_ID = PDS3\\r\\nNOTE = \\"" + "\\u5ae6".encode("gb18030") + b"\\"\\r\\nEND\\r\\n")
assert pdr.read(f"{d}/CE1_B.2C").metaget("NOTE") == "\\u5ae6"
'''),
 dict(id="change-single-group-name", property="C37",
  edits=[("pdr/formats/change.py", """        name = group.get('name', 'Group')
        repetitions = int(group.get('repetitions', 0))
        for rep in range(repetitions):
            cols.append(f"{name}_{rep + 1}")""", """        name = group.get('name', 'Group')
        repetitions = int(group.get('repetitions', 0))
        if repetitions == 1:
            cols.append(name)
            continue
        for rep in range(repetitions):
            cols.append(f"{name}_{rep + 1}")""")],
  needs="a group of fields that occurs once",
  what_it_breaks="its column is named unlike other groups'",
  demo=P4 + '''
t = change("CE4_GRAS_LND-ThN_SCI_N_1.2AL", ["a"] + ["b"], [("E", 1)], ["1 2 3", "6 7 8"])
assert list(t.columns) == ["a", "b", "E_1"], t
'''),
]
