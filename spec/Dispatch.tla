------------------------------ MODULE Dispatch ------------------------------
(* Which reader an object of a PDS3 product goes to (C31): by its name, by   *)
(* the kind of file its pointer names, and by rules for certain data sets.   *)
(* An object o has a name, the suffixes of its file's name (lower case) and  *)
(* the product's identifiers ids (a sequence of [key, text]).                *)
EXTENDS PdrBytes

Has(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w
HasAny(s, ws) == \E w \in ws : Has(s, w)
Starts(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
Id(o, key) ==
  IF \E i \in 1..Len(o.ids) : o.ids[i].key = key
  THEN o.ids[CHOOSE i \in 1..Len(o.ids) : o.ids[i].key = key].text ELSE ""
Test(how, s, w) == CASE how = "is" -> s = w [] how = "has" -> Has(s, w)
                     [] how = "starts" -> Starts(s, w)

\* rules for data sets: conditions on identifiers, on the name (one of), and
\* what becomes of the object
If(key, how, text) == [key |-> key, how |-> how, text |-> text]
Rule(id, needs, how, names, effect) ==
  [id |-> id, needs |-> needs, how |-> how, names |-> names, effect |-> effect]
DataSet(how, text) == If("DATA_SET_ID", how, text)
Rules == <<
  Rule("apxs-errors", <<If("INSTRUMENT_ID", "is", "APXS")>>,
       "has", {"ERROR_CONTROL_TABLE"}, "nothing"),
  Rule("fluxgate", <<If("INSTRUMENT_NAME", "is", "TRIAXIAL FLUXGATE MAGNETOMETER"),
                     DataSet("has", "-EDR-")>>, "is", {"TABLE"}, "nothing"),
  Rule("rmi", <<If("INSTRUMENT_NAME", "is", "CHEMISTRY CAMERA REMOTE MICRO-IMAGER")>>,
       "is", {"IMAGE_REPLY_TABLE"}, "nothing"),
  Rule("themis-geo", <<DataSet("starts", "ODY-M-THM-5")>>,
       "is", {"HEADER", "HISTORY"}, "nothing"),
  Rule("ssi-cubes", <<DataSet("has", "GO-A-SSI-3-"),
                      DataSet("has", "-CALIMAGES-V1.0"),
                      If("PRODUCT_ID", "has", "QUB")>>,
       "is", {"HEADER"}, "nothing"),
  Rule("chemin", <<If("INSTRUMENT_ID", "is", "CHEMIN")>>, "is", {"HEADER"},
       "nothing"),
  Rule("sam", <<DataSet("has", "MSL-M-SAM-")>>, "has", {"FILE"}, "nothing"),
  Rule("nims", <<If("INSTRUMENT_ID", "is", "NIMS"),
                 If("SPACECRAFT_NAME", "is", "GALILEO_ORBITER")>>,
       "is", {"SAMPLE_SPECTRUM_QUBE"}, "nothing"),
  Rule("buglab", <<DataSet("is", "BUGLAB-L-BUG-4-APOLLO-SAMPLES-V1.0")>>,
       "is", {"HEADER"}, "nothing"),
  Rule("apxs-header", <<DataSet("is", "MSL-M-APXS-4/5-RDR-V1.0")>>,
       "is", {"HEADER"}, "nothing"),
  Rule("vra-tnf", <<If("INSTRUMENT_HOST_NAME", "is", "VENUS EXPRESS"),
                    If("INSTRUMENT_ID", "is", "VRA"),
                    If("PRODUCT_ID", "has", "1A_TNF")>>,
       "has", {""}, "nothing"),
  Rule("virtis", <<If("INSTRUMENT_HOST_NAME", "is", "VENUS EXPRESS"),
                   If("INSTRUMENT_ID", "is", "VIRTIS")>>,
       "is", {"HISTORY"}, "nothing"),
  Rule("mcs", <<DataSet("has", "MRO-M-MCS-5-DDR"), DataSet("has", "V1.0")>>,
       "has", {""}, "nothing"),
  Rule("pace", <<DataSet("is", "SLN-L-PACE-3-PBF1-V3.0")>>,
       "is", {"TIME_SERIES"}, "nothing"),
  Rule("kaguya-result", <<DataSet("has", "SLN-L-SP")>>,
       "has", {"L2D_RESULT_ARRAY"}, "nothing"),
  Rule("kaguya-qa", <<DataSet("is", "SLN-L-TC-4-DEM-ORTHO-V1.0")>>,
       "is", {"QA_FILENAME"}, "nothing"),
  Rule("kaguya-grs", <<DataSet("is", "SLN-L-GRS-3-ENG-SPECTRUM-V1.0")>>,
       "is", {"TABLE"}, "nothing"),
  Rule("ce1-prefix", <<If("SPACECRAFT_NAME", "is", "CE1")>>,
       "has", {"IMAGE_PREFIX"}, "nothing"),
  Rule("kaguya-spectrum", <<DataSet("has", "SLN-L-SP")>>, "has", {"SPECTRUM"},
       "image"),
  Rule("kaguya-support", <<DataSet("has", "SLN-L-SP")>>,
       "has", {"ANCILLARY_AND_SUPPLEMENT_DATA"}, "table"),
  Rule("lroc", <<If("INSTRUMENT_ID", "is", "LROC"),
                 If("PRODUCT_TYPE", "is", "EDR")>>, "has", {"IMAGE"}, "unsigned"),
  Rule("jiram", <<DataSet("is", "JNO-J-JIRAM-3-RDR-V1.0"),
                  If("PRODUCT_TYPE", "is", "RDR")>>, "has", {"IMAGE"}, "reals"),
  Rule("uvis", <<If("INSTRUMENT_HOST_NAME", "is", "CASSINI_ORBITER")>>,
       "is", {"QUBE"}, "planes")
  >>
NameFits(r, o) == \E w \in r.names : w = "" \/ Test(r.how, o.name, w)
Met(r, o) == /\ \A i \in 1..Len(r.needs) :
                  Test(r.needs[i].how, Id(o, r.needs[i].key), r.needs[i].text)
             /\ NameFits(r, o)
Applies(o, effect) ==
  \E i \in 1..Len(Rules) : Rules[i].effect = effect /\ Met(Rules[i], o)

\* never presented as objects
Hidden(o) ==
  \/ Has(o.name, "TIFF") /\ ~HasAny(o.name, {"IMAGE", "DOCUMENT"})
  \/ HasAny(o.name, {"STRUCTURE", "PDS_OBJECT"})
Fits == {".fits", ".fit", ".fits.gz", ".fit.gz", ".fz"}
Desktop == {".bmp", ".tif", ".tiff", ".jp2", ".jpf", ".jpc", ".jpx", ".gif",
            ".jpg", ".jpeg", ".png", ".webp"}
Named(o, kinds) == \E i \in 1..Len(o.suffixes) : o.suffixes[i] \in kinds
TableWords == {"TABLE", "SPREADSHEET", "CONTAINER", "SERIES", "SPECTRUM",
               "HISTOGRAM", "FILE"}
Kind(o) ==
  CASE Hidden(o) -> "hidden"
    [] OTHER ->
  CASE Applies(o, "nothing") -> "nothing"
    [] OTHER ->
  CASE Named(o, Fits) -> "fits"
    [] OTHER ->
  CASE Named(o, Desktop) -> "desktop"
    [] OTHER ->
  CASE Applies(o, "image") -> "image"
    [] OTHER ->
  CASE Applies(o, "table") -> "table"
    [] OTHER ->
  CASE HasAny(o.name, {"TEXT", "PDF", "MAP_PROJECTION_CATALOG", "FILENAME",
                       "DESC"}) -> "text"
    [] OTHER ->
  CASE Has(o.name, "ARRAY") -> "array"
    [] OTHER ->
  CASE /\ HasAny(o.name, TableWords)
       /\ ~HasAny(o.name, {w \o "_HEADER" : w \in TableWords})
       /\ ~HasAny(o.name, {w \o "_NAME" : w \in TableWords})
       /\ ~Has(o.name, "HISTOGRAM_IMAGE") -> "table"
    [] OTHER ->
  CASE Has(o.name, "HEADER") -> "header"
    [] OTHER ->
  CASE HasAny(o.name, {"IMAGE", "QUB"}) -> "image"
    [] OTHER -> "unsupported"

\* the elements of an image or qube of 1-byte, 4-byte or 2-byte samples, from
\* its bytes (in file order): as unsigned numbers, or their bytes in order
Element(o, i) ==
  IF Applies(o, "unsigned") THEN o.bytes[i]
  ELSE IF o.bytes[i] > 127 THEN o.bytes[i] - 256 ELSE o.bytes[i]
Elements(o) == [i \in 1..Len(o.bytes) |-> Element(o, i)]
\* 4-byte reals, each from its most significant byte
Reals(o) ==
  [i \in 1..Len(o.bytes) |->
     LET k == (i - 1) \div 4 + 1 IN
     IF Applies(o, "reals") THEN o.bytes[4 * k - ((i - 1) % 4)] ELSE o.bytes[i]]
\* a qube of 2 bands, 2 lines and 3 samples, labelled as band interleaved
\* by line: band, line, sample
Planes(o) ==
  [i \in 1..12 |->
     LET b == (i - 1) \div 6
         y == ((i - 1) % 6) \div 3
         x == (i - 1) % 3 IN
     IF Applies(o, "planes") THEN o.bytes[i] ELSE o.bytes[6 * y + 3 * b + x + 1]]
=============================================================================
