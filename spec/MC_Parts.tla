------------------------------ MODULE MC_Parts ------------------------------
EXTENDS Parts, TLC, Json, FiniteSets
CONSTANT Deep
VARIABLES f, o, hdus, at

K(key, text) == [key |-> key, text |-> text]
In(text) == <<K("DATA_SET_ID", text)>>
Family(id, ids, near, names, lists) ==
  [id |-> id, ids |-> ids, near |-> near, names |-> names, lists |-> lists]
Three == {<<"", "A", "B">>, <<"", "A">>}
LampR == {<<"", "Acquisition List", "Calibrated Pixel List Mode Data",
  "Ancillary Data", "Calibrated Histogram Mode Data", "Calculated Countrate",
  "LTS Data", "Housekeeping Data", "Wavelength Lookup Image">>,
  <<"", "Wavelength Lookup Image", "Housekeeping Data", "Reduced Count Rate",
    "Ancillary Data", "LTS Data", "Acquisition List">>}
LampE == {<<"", "Acquisition List", "Raw Frame Data", "Calculated Countrate",
  "LTS Data", "Housekeeping Data">>}
Numbers(n) == <<[i \in 1..n |-> IF i = 1 THEN "" ELSE "X" \o ToString(i)]>>
Pairs(names, kinds) == {names[i] \o "_HEADER" : i \in 1..Len(names)} \cup
                       {names[i] \o "_" \o kinds[i] : i \in 1..Len(names)}
Families == {
  Family("rings", In("HST-S-WFPC2-3-RPX-V1.0"), In("HST-S-WFPC2-4-RPX-V1.0"),
    {"IMAGE", "F_IMAGE", "B_IMAGE_HEADER", "IMAGE_HEADER", "HEADER", "TABLE"}, Three),
  Family("hriv", <<K("INSTRUMENT_ID", "HRIV"), K("PRODUCT_TYPE", "RADIANCE_DECONVOLVED")>>,
    <<K("INSTRUMENT_ID", "MRI"), K("PRODUCT_TYPE", "RADIANCE_DECONVOLVED")>>,
    {"EXT_MASK_IMAGE", "EXT_MASK_HEADER", "EXT_SNR_IMAGE"},
    {<<"", "MASK", "SNR">>, <<"", "SNR", "MASK">>, <<"", "SNR">>}),
  Family("hriv-other", <<K("INSTRUMENT_ID", "HRIV"), K("PRODUCT_TYPE", "RADIANCE_DECONVOLVED")>>,
    <<K("INSTRUMENT_ID", "HRIV"), K("PRODUCT_TYPE", "RADIANCE")>>,
    {"EXT_MASK_IMAGE", "EXT_MASK_HEADER", "MASK_IMAGE"}, {<<"", "MASK", "SNR">>}),
  Family("mdis", In("MSGR-H-MDIS-6-CAL-V1.0"), In("MSGR-H-MDIS-4-CDR-V1.0"),
    {"IMAGE", "HEADER", "OTHER_IMAGE"}, Three),
  Family("caspir", In("MSSSO-J-CASPIR-3-RDR-SL9-STDS-V1.0"),
    In("MSSSO-J-CASPIR-3-RDR-SL9-V1.0"), {"IMAGE", "HEADER", "IMAGE_HEADER"}, Three),
  Family("vmc", In("MEX-M-VMC-3-RDR-V1.0"), In("MEX-M-VMC-2-EDR-V1.0"),
    {"IMAGE"}, Three \cup {<<"">>}),
  Family("dawn", <<K("INSTRUMENT_HOST_NAME", "DAWN"),
                   K("DATA_SET_ID", "DAWN-A-FC2-2-EDR-V1.0")>>,
    <<K("INSTRUMENT_HOST_NAME", "DAWN"), K("DATA_SET_ID", "DAWN-A-FC1-2-EDR-V1.0")>>,
    {"IMAGE", "HEADER"}, Three),
  Family("lamp-rdr", In("LRO-L-LAMP-3-RDR-V1.0"), In("LRO-L-LAMP-3-RDR-V1.1"),
    {"ACQUISITION_LIST_TABLE", "ACQUISITION_LIST_HEADER", "CAL_PIXELLIST_DATA_TABLE",
     "CAL_PIXELLIST_DATA_HEADER", "ANCILLARY_DATA_TABLE", "ANCILLARY_DATA_HEADER",
     "CAL_HISTOGRAM_DATA_HEADER", "CAL_HISTOGRAM_01_IMAGE",
     "CAL_CALCULATED_COUNTRATE_TABLE", "CAL_CALCULATED_COUNTRATE_HEADER",
     "LTS_DATA_TABLE", "HOUSEKEEPING_TABLE", "HOUSEKEEPING_HEADER",
     "WAVELENGTH_LOOKUP_IMAGE", "CAL_SPECTRAL_IMAGE", "CAL_SPECTRAL_IMAGE_HEADER"}, LampR),
  Family("lamp-edr", In("LRO-L-LAMP-2-EDR-V1.0"), In("LRO-L-LAMP-2-EDR-V1.1"),
    {"ACQUISITION_LIST_TABLE", "FRAME_DATA_TABLE", "CALCULATED_COUNTRATE_TABLE",
     "LTS_DATA_TABLE", "HOUSEKEEPING_TABLE", "OTHER_TABLE", "HOUSEKEEPING_HEADER"}, LampE),
  Family("uvs-rdr", <<K("DATA_SET_ID", "JNO-J-UVS-3-RDR-V1.0"), K("PRODUCT_TYPE", "RDR")>>,
    <<K("DATA_SET_ID", "JNO-J-UVS-3-RDR-V1.0"), K("PRODUCT_TYPE", "EDR")>>,
    Pairs(UvsRdr, UvsRdrKinds), {Numbers(9)[1]}),
  Family("uvs-edr", <<K("DATA_SET_ID", "JNO-J-UVS-2-EDR-V1.0"), K("PRODUCT_TYPE", "EDR")>>,
    <<K("DATA_SET_ID", "JNO-J-UVS-2-EDR-V1.0"), K("PRODUCT_TYPE", "RDR")>>,
    Pairs(UvsEdr, UvsEdrKinds), {Numbers(12)[1]})}

Product1(ids, name) ==
  [name |-> name, ids |-> ids, file |-> "p.lbl", format |-> "", suffixes |-> <<>>,
   standard |-> "PDS3"]
\* v: all short, or some headers and data longer
Full(list, v) == [i \in 1..Len(list) |->
  [name |-> list[i], empty |-> FALSE,
   head |-> IF v = 0 THEN 1 ELSE IF v = 1 THEN 1 + (i % 2) ELSE 1 + ((i + 1) % 3),
   size |-> IF v = 1 /\ i = 2 THEN 2 ELSE 1]]
Variants == IF Deep THEN {0, 1, 2} ELSE {0, 1}
\* the HDU an object is of, or one of those it might be taken for
Own(p, list) == LET w == Where(p, Full(list, 0), [n |-> 1]) IN
                IF w.hdu = 0 THEN 2 ELSE w.hdu
Files(p, list, v) ==
  LET h == Full(list, v)
      own == Own(p, list)
      holes == {0, own, own - 1} \cap 0..Len(h)
      cuts == {0, Len(h), own} \cap 0..Len(h)
      holed == {[i \in 1..Len(h) |-> [h[i] EXCEPT !.empty = (i = e)]] : e \in holes}
      cut(g, c) == IF c <= 1 THEN g ELSE SubSeq(g, 1, c - 1) \o SubSeq(g, c + 1, Len(g))
  IN  {cut(g, c) : g \in holed, c \in cuts}
\* where labels say it is: at headers or data, or past the file's end
Hits(h, name) == {[n |-> 1 + (IF HeaderName(name) THEN HeaderRecord(h, j)
                              ELSE DataRecord(h, j))] :
                  j \in {k \in 1..Len(h) : HeaderName(name) \/ ~h[k].empty}}
Wild(h) == {[n |-> k] : k \in {1, 2, 3, 1 + HeaderRecord(h, Len(h)), 40}}
Bound(p, h) ==
  \/ ~(\E i \in 1..Len(Elementary) : Covers(Elementary[i], p) /\
          Elementary[i].id \notin {"lamp-edr-fits", "dawn-fits"})
  \/ (Knows("lamp-rdr-fits", p) /\ Word(LampRdr, p.name) = 0)
Few(s, own) == IF Deep THEN s ELSE {x \in s : x.n \in
   {y \in {x2.n : x2 \in s} : Cardinality({z \in s : z.n < y}) \in {0, own - 1, own}}}
Pointers(p, h, own) ==
  IF Bound(p, h) THEN Few(Hits(h, p.name), own) ELSE Few(Hits(h, p.name), own) \cup
    (IF Deep THEN Wild(h) ELSE {[n |-> 40]})

Init == /\ f \in Families
        /\ \E ids \in {f.ids, f.near}, name \in f.names : o = Product1(ids, name)
        /\ hdus \in UNION {Files(o, list, v) : list \in f.lists, v \in Variants}
        /\ at \in Pointers(o, hdus, Own(o, [i \in 1..Len(hdus) |-> hdus[i].name]))
Next == UNCHANGED <<f, o, hdus, at>>
Spec == Init /\ [][Next]_<<f, o, hdus, at>>

Result == Where(o, hdus, at)
\* labels of other data sets are taken at their word
Apart == o.ids = f.near => Result = ByLabel(hdus, at, o.name)
\* those known to be wrong are not
Fixed == ~Bound(o, hdus) /\ o.ids = f.ids =>
           Result = Where(o, hdus, [n |-> 1]) /\ Result = Where(o, hdus, [n |-> 40])
\* headers are headers, data are data, and of what they are named for
Kept == /\ Result.part = "header" => HeaderName(o.name)
        /\ Result.part \in {"data", "empty"} => ~HeaderName(o.name)
        /\ Result.part = "empty" => hdus[Result.hdu].empty
        /\ Result.part = "data" => ~hdus[Result.hdu].empty
\* every HDU's parts can be pointed at
Reachable == \A i \in 1..Len(hdus) :
  /\ ByLabel(hdus, [n |-> HeaderRecord(hdus, i) + 1], "HEADER").hdu = i
  /\ ~hdus[i].empty => ByLabel(hdus, [n |-> DataRecord(hdus, i) + 1], "IMAGE")
                         = [hdu |-> i, part |-> "data"]
Emit == PrintT("SCN " \o ToJson([id |-> f.id, o |-> o, hdus |-> hdus, at |-> at]))
=============================================================================
