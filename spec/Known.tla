------------------------------- MODULE Known --------------------------------
(* C35: what is known of irregular data sets, and how their tables and       *)
(* images are read by it.  A case says by which keywords, object name and    *)
(* file name it is known (they meet a rule of Irregular), and what its file  *)
(* really holds:                                                             *)
(*   "text"   lines of cells parted by separators, whatever columns of bytes *)
(*            the label tells of: after skip lines, with names from the      *)
(*            label or from the file's first line                            *)
(*   "fixed"  rows of columns of bytes, as the label has it but for a        *)
(*            mistake in it that is known                                    *)
(*   "image"  an image whose label has a known mistake                       *)
EXTENDS Irregular, SequencesExt

Case(id, ids, name, file, how) ==
  [id |-> id, ids |-> ids, name |-> name, file |-> file, how |-> how,
   format |-> ""]
K(key, text) == [key |-> key, text |-> text]
In(text) == <<K("DATA_SET_ID", text)>>

\* ------------------------------------------------------------------- texts
Comma == {44}
Semicolon == {59}
Blank == {32, 9}
Colon == {58, 32, 9}
Lay(sep, skip, names) ==
  [kind |-> "text", sep |-> sep, skip |-> skip, names |-> names,
   joined |-> sep \in {Blank, Colon}, \* runs of separators part cells once
   absent |-> {}, extra |-> "", at |-> 0, nuls |-> FALSE, over |-> FALSE,
   repeats |-> FALSE, rows |-> "all", missing |-> {}, fixed |-> <<>>]

Mimi == {"CO-S-MIMI-4-CHEMS-CALIB-V1.0", "CO-S-MIMI-4-LEMMS-CALIB-V1.0",
         "CO-S-MIMI-4-INCA-CALIB-V1.0"}
MimiKeys(s) == IF s = "" THEN <<K("INSTRUMENT_HOST_NAME", "CASSINI ORBITER"),
    K("PRODUCT_TYPE", "ANCILLARY"), K("DATA_SET_ID", "CO-S-MIMI-4-X-V1.0")>>
  ELSE In(s)
NamesOf(s, f) == IF s = "CO-S-MIMI-4-CHEMS-CALIB-V1.0" /\ f = "A_FULL_1.CSV"
               THEN "head" ELSE "label"
MimiCases ==
  {Case("mimi", MimiKeys(s), "SPREADSHEET", f,
        Lay(Comma, IF f = "A_FULL_1.CSV" THEN 4 ELSE 7, NamesOf(s, f))) :
     s \in Mimi \cup {""}, f \in {"A_1.CSV", "A_FULL_1.CSV"}} \cup
  {Case("mimi-raw", In("CO-E/J/S/SW-MIMI-2-LEMMS-UNCALIB-V1.0"), "SPREADSHEET",
        "A_1.CSV", Lay(Comma, 1, "head")),
   Case("radar", In("CO-SSA-RADAR-3-ABDR-SUMMARY-V1.0"), "SPREADSHEET",
        "A_1.CSV", Lay(Comma, 0, "label"))}
HeadCases ==
  {Case("chemin", <<K("INSTRUMENT_ID", "CHEMIN")>>, n, "a.csv",
        Lay(Comma, 1, "head")) : n \in {"SPREADSHEET", "RDR_SPREADSHEET"}} \cup
  {Case("qms", <<K("DATA_SET_ID", "MSL-M-SAM-2-RDR-L0-V1.0"),
        K("PRODUCT_ID", "A_QMS_1")>>, n, "a.csv", Lay(Comma, 1, "head")) :
     n \in {"TABLE", "A_TABLE"}} \cup
  {Case("places", In("MSL-M-ROVER-6-RDR-PLACES-V1.0"), "SPREADSHEET", "a.csv",
        Lay(Comma, 1, "label"))}
Impact(p) == <<K("DATA_SET_ID", "GO-J-NIMS-4-ADR-SL9IMPACT-V1.0"),
               K("PRODUCT_ID", p)>>
PlainCases ==
  {Case("magellan", <<K("SPACECRAFT_NAME", "MAGELLAN"),
        K("NOTE", "Geometry of x")>>, "TABLE", "a.tab",
        [Lay(Comma, 0, "label") EXCEPT !.nuls = TRUE])} \cup
  {Case("impact", Impact(p), "TABLE", "a.tab",
        [Lay(Comma, 0, "label") EXCEPT !.nuls = TRUE]) :
     p \in {"CAL_DATA.TAB", "G_DATA.TAB", "R_DATA.TAB"}} \cup
  {Case("diviner", <<K("INSTRUMENT_ID", "DLRE"), K("PRODUCT_TYPE", t)>>,
        "TABLE", "a.tab",
        [Lay(Comma, 1, "label") EXCEPT !.missing = {<<78, 97, 78>>}]) :
     t \in {"GCP", "PCP", "PRP"}} \cup
  {Case("density", In("GO-J-PWS-5-DDR-PLASMA-DENSITY-FULL-V1.0"),
        "SPREADSHEET", "a.tab", Lay(Semicolon, 2, "label")),
   Case("elements", In("ODY-M-GRS-5-ELEMENTS-V1.0"), "TABLE", "a.tab",
        Lay(Blank, 0, "label")),
   [Case("gas", In("ULY-J-GAS-5-SKY-MAPS-V1.0"), "TABLE", "a.tab",
        Lay(Blank, 17, "label")) EXCEPT !.format = "GASDATA.FMT"],
   Case("curves", In("IHW-C-IRFCURV-3-EDR-HALLEY-V2.0"), "TABLE", "a.tab",
        Lay(Blank, 0, "label")),
   Case("sectors", In("VG1-J-LECP-4-SUMM-SECTOR-15MIN-V1.1"), "TABLE",
        "a.tab", Lay(Blank, 0, "label")),
   Case("steps", In("VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"), "TABLE",
        "a.tab", Lay(Blank, 0, "label")),
   Case("saturn", In("VG1-S-LECP-3-RDR-STEP-6MIN-V1.0"), "SPREADSHEET",
        "a.tab", [Lay(Comma, 1, "label") EXCEPT !.repeats = TRUE]),
   Case("aspera", In("MEX-M-ASPERA3-2-EDR-IMA-V1.0"), "SPREADSHEET", "a.csv",
        [Lay(Comma, 0, "label") EXCEPT !.over = TRUE]),
   Case("housekeeping", <<K("DATA_SET_ID", "LRO-L-MRFLRO-1-PDR-V1.0"),
        K("PRODUCT_ID", "A_HK_1")>>, "SPREADSHEET", "a.csv",
        Lay(Comma, 0, "label")),
   Case("crism", <<K("INSTRUMENT_ID", "CRISM"), K("PRODUCT_TYPE", "ANCILLARY"),
        K("PRODUCT_ID", "A_OBS_1")>>, "TABLE", "a.tab",
        [Lay(Comma, 0, "label") EXCEPT !.missing = {<<78, 47, 65>>}]),
   Case("weather", <<K("INSTRUMENT_HOST_NAME", "LUNAR RECONNAISSANCE ORBITER"),
        K("INSTRUMENT_NAME", "RADIO SCIENCE SUBSYSTEM")>>, "WEAREC_TABLE",
        "a.tab", Lay(Colon, 1, "label"))} \cup
  {Case("uhf", <<K("DATA_SET_ID", s), K("PRODUCT_TYPE", "UHFD")>>,
        "SPREADSHEET", "a.csv", Lay(Comma, 0, "label")) :
     s \in {"MER1-M-RSS-1-EDR-V1.0", "MER2-M-RSS-1-EDR-V1.0"}} \cup
  {Case("odf", <<K("INSTRUMENT_HOST_NAME", "MARS EXPRESS"),
        K("INSTRUMENT_ID", "MRS"), K("PRODUCT_ID", p)>>,
        n, "a.tab", Lay(Blank, 0, "label")) :
     p \in {"M43ODF0L1B_RMP.TAB", "M43ODF0L1B_1.TAB"}, n \in {"TABLE", "ODF_TABLE"}}
Seis == In("VL2-M-SEIS-5-RDR-V1.0")
SeisCases ==
  {Case("seis", Seis, n, "summary.tab", [Lay(Blank, 0, "label") EXCEPT
        !.absent = {"SEISMIC_TIME_SOLS"}]) : n \in {"TABLE", "SPREADSHEET"}} \cup
  {Case("seis", Seis, "TABLE", "Event_Wind_Summary.tab",
        [Lay(Blank, 0, "label") EXCEPT !.absent = {"SEISMIC_TIME_SOLS"},
           !.extra = "ORIGINAL_LINES_COUNT", !.at = 8]),
   Case("seis", Seis, "SPREADSHEET", "EVENT_1.csv", [Lay(Comma, 0, "label")
        EXCEPT !.absent = {"SEISMIC_SOL"}]),
   Case("seis", Seis, "SPREADSHEET", "high_1.csv", Lay(Comma, 0, "label"))}
Rover == <<K("INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"),
           K("INSTRUMENT_ID", "REMS")>>
RemsCases ==
  {Case("rems-raw", Rover \o <<K("PRODUCT_ID", "A_SP_____1")>>, n, "a.tab",
        [Lay(Comma, 0, "label") EXCEPT !.rows = "counted"]) :
     n \in {"A_TABLE", "TABLE"}} \cup
  {Case("rems", Rover \o In("MSL-M-REMS-5-MODRDR-V1.0"), "REMS_SCIENCE_TABLE",
        "a.tab", [Lay(Comma, 0, "label") EXCEPT !.missing =
          {<<85, 78, 75>>, <<78, 85, 76, 76>>}])}
Afm == <<K("DATA_SET_ID", "PHX-M-MECA-4-NIRDR-V1.0"),
         K("INSTRUMENT_ID", "MECA_AFM")>>
AfmCases ==
  {Case("afm", Afm, p[1], "a.tab", [Lay(Comma, p[2], "label") EXCEPT
        !.rows = "512"]) :
     p \in {<<"AFM_F_ERROR_TABLE", 4>>, <<"AFM_F_HEIGHT_TABLE", 516>>,
            <<"AFM_B_ERROR_TABLE", 1028>>, <<"AFM_B_HEIGHT_TABLE", 1540>>}}
Vera(p) == <<K("INSTRUMENT_HOST_NAME", "VENUS EXPRESS"),
             K("INSTRUMENT_ID", "VRA"), K("PRODUCT_TYPE", "UDR"),
             K("PRODUCT_ID", p)>>
OtherCases ==
  {Case("electrons", <<K("INSTRUMENT_ID", "SPEDE"),
        K("FILE_NAME", "S1_PD_40_1.TAB")>>, "TABLE", "a.tab",
        [Lay(Comma, 64, "spede") EXCEPT !.joined = TRUE]),
   \* the file has its name from the label's, whatever the pointer says
   Case("echoes", Vera("A_AG1.RAW"), "TABLE", "a.tab", Lay(Blank, 0, "slashes"))} \cup
  {Case("horizons", In(s), "SPREADSHEET", "p.csv", Lay(Comma, 0, "label")) :
     s \in {"NH-P-PEPSSI-4-PLASMA-V1.0", "NH-X-SWAP-5-DERIVED-SOLARWIND-V1.0",
            "NH-P/PSA-LORRI/ALICE/REX-5-ATMOS-V1.0"}}
TextCases == OtherCases \cup MimiCases \cup HeadCases \cup PlainCases \cup SeisCases \cup
             RemsCases \cup AfmCases

\* cells of a line
Split(line, sep) ==
  FoldLeft(LAMBDA acc, c : IF c \in sep THEN Append(acc, <<>>)
                           ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)],
           << <<>> >>, line)
RECURSIVE Trim(_)
Trim(t) ==
  IF t = <<>> THEN t
  ELSE IF Head(t) \in {32, 9, 13, 10} THEN Trim(Tail(t))
  ELSE IF t[Len(t)] \in {32, 9, 13, 10} THEN Trim(SubSeq(t, 1, Len(t) - 1))
  ELSE t
Cells(line, how) ==
  LET parts == [i \in 1..Len(Split(line, how.sep)) |->
                  Trim(Split(line, how.sep)[i])]
  IN  IF how.joined THEN SelectSeq(parts, LAMBDA p : p # <<>>) ELSE parts
\* a text of given characters
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
InText(t) == FoldLeft(LAMBDA acc, c : acc \o SubSeq(Printable, c - 31, c - 31),
                      "", t)
NoNuls(line) == SelectSeq(line, LAMBDA c : c # 0)
Clean(lines, how) ==
  IF how.nuls THEN [i \in 1..Len(lines) |-> NoNuls(lines[i])] ELSE lines
Two(n) == ToString(n \div 10) \o ToString(n % 10)
Forty(name) == [i \in 1..40 |-> name \o "_" \o Two(i - 1)]
Electrons == <<"DATE", "JULIAN_DATE", "SHADOW", "SC_MX_SUN_ANGLE",
  "SC_MY_SUN_ANGLE", "SC_MZ_SUN_ANGLE", "SC_SA_ANGLE", "GSE_X", "GSE_Y",
  "GSE_Z", "LSE_X", "LSE_Y", "LSE_Z", "TIME_INCREMENT">>
  \o Forty("BIAS") \o Forty("MEASUREMENT") \o Forty("FLAGS")
\* the line that names the columns of some
Slashes(line) == Len(Trim(line)) > 1 /\ SubSeq(Trim(line), 1, 2) = <<47, 47>>
HeadLine(lines) == CHOOSE i \in 1..Len(lines) :
  Slashes(lines[i]) /\ \A j \in 1..(i - 1) : ~Slashes(lines[j])
\* extra heads in the midst of some files
Extra(line, how) == how.repeats /\ line # <<>> /\ Head(line) = 86
\* the lines that hold rows; label: rows, start
DataLines(lines, how, label) ==
  LET all  == SelectSeq(Clean(lines, how), LAMBDA x : ~Extra(x, how))
      skip == IF how.rows = "counted" THEN label.start \div 399
              ELSE IF how.names = "slashes" THEN HeadLine(lines)
              ELSE how.skip
      rest == SelectSeq(SubSeq(all, skip + 1, Len(all)),
                        LAMBDA x : Trim(x) # <<>>)
      most == IF how.rows = "counted" THEN label.rows
              ELSE IF how.rows = "512" THEN 512 ELSE Len(rest)
  IN  SubSeq(rest, 1, Min2(most, Len(rest)))
TextNames(lines, how, label) ==
  IF how.names = "head" THEN LET h == Cells(Clean(lines, how)[1], how) IN
       [i \in 1..Len(h) |-> InText(h[i])]
  ELSE IF how.names = "spede" THEN Electrons
  ELSE IF how.names = "slashes"
  THEN LET h == Trim(lines[HeadLine(lines)])
           c == Cells(SubSeq(h, 3, Len(h)), how)
       IN  [i \in 1..Len(c) |-> InText(c[i])]
  ELSE LET own == SelectSeq(label.names, LAMBDA n : n \notin how.absent) IN
       IF how.extra = "" THEN own
       ELSE SubSeq(own, 1, how.at - 1) \o <<how.extra>> \o
            SubSeq(own, how.at, Len(own))
Value(t, how) == IF t \in how.missing THEN <<>> ELSE t
TextRows(lines, how, label, n) ==
  LET d == DataLines(lines, how, label) IN
  [i \in 1..Len(d) |->
     LET c == Cells(d[i], how) IN
     [j \in 1..n |-> IF j <= Len(c) THEN Value(c[j], how) ELSE <<>>]]

\* ------------------------------------------------------------------- fixed
\* what is wrong with the label: the length of rows, their number, their
\* start, or the place of columns
Fix(stride, rows, start, ends, cols) ==
  [kind |-> "fixed", stride |-> stride, rows |-> rows, start |-> start,
   ends |-> ends, cols |-> cols]
Short(n) == Fix([by |-> "more", n |-> n], "label", "label", TRUE, "label")
Being(n) == Fix([by |-> "being", n |-> n], "label", "label", TRUE, "label")
AsSaid == Fix([by |-> "more", n |-> 0], "label", "label", TRUE, "label")
Express == <<K("INSTRUMENT_HOST_NAME", "MARS EXPRESS"), K("INSTRUMENT_ID", "MRS")>>
Pws == <<K("INSTRUMENT_NAME", "PLASMA WAVE RECEIVER"),
         K("DATA_SET_ID", "GO-E-PWS-4-SUMM-V1.0")>>
Huygens(f) == <<K("INSTRUMENT_HOST_NAME", "HUYGENS PROBE"), K("FILE_NAME", f)>>
AtBottom(f) == [(IF f = "a.tab" THEN Short(1) ELSE AsSaid) EXCEPT !.start = "bottom"]
FixedCases ==
  {Case("descent", ids, "TABLE", f, AtBottom(f)) :
     ids \in {Huygens("A_STRIP_1.TAB"), Huygens("SUN_1.TAB"),
             <<K("INSTRUMENT_NAME", "DESCENT IMAGER SPECTRAL RADIOMETER"),
               K("PRODUCT_TYPE", "RDR")>>},
     f \in {"a.tab", "DISR_ULVS_DDP.TAB", "DLIS_AZ_DDP_1.TAB", "A_DLV_DDP.TAB"}} \cup
  {Case("entry", Huygens("HASI_L4_ATMO.TAB"), "TABLE", f,
        [AsSaid EXCEPT !.cols = IF f = "HASI_1.TAB" THEN "label" ELSE "aero"]) :
     f \in {"HASI_1.TAB", "HUY_DTWG_ENTRY_AERO.TAB"}} \cup
  {Case("marsis", <<K("INSTRUMENT_ID", "MARSIS"),
        K("DATA_SET_NAME", "MARS TEC DATA")>>, "TABLE", "a.tab",
        [Being(143) EXCEPT !.rows = "records"]),
   Case("rpws", <<K("DATA_SET_ID", "CO-V/E/J/S/SS-RPWS-2-REFDR-V1.0"),
        K("PRODUCT_TYPE", "ANCILLARY")>>, "RPWS_TIME_ORDERED_TABLE", "a.tab",
        [AsSaid EXCEPT !.rows = "records"]),
   Case("atmosphere", In("MEX-M-MRS-5-OCC-V1.0"), "ATM_TABLE", "a.tab",
        Being(278)),
   Case("doppler", Express \o <<K("PRODUCT_ID", "A_ICL_L1B_1")>>,
        "DOPPLER_TABLE", "a.tab", Short(1)),
   Case("ranging", Express \o <<K("PRODUCT_ID", "A_ODF_L02_1")>>,
        "RANGING_TABLE", "a.tab", Short(1)),
   Case("mrdr", <<K("DATA_SET_ID", "MRO-M-CRISM-5-RDR-MULTISPECTRAL-V1.0"),
        K("PRODUCT_ID", "A_MRRWV_1")>>, "TABLE", "a.tab",
        [AsSaid EXCEPT !.stride = [by |-> "record", n |-> 0]]),
   Case("orpa", <<K("DATA_SET_ID", "PVO-V-ORPA-5-ELE/ION/PHOTO/UADS-V1.0"),
        K("PRODUCT_ID", "ORPA_LOW_RES_1")>>, "TABLE", "a.tab", Being(243)),
   Case("oims", In("PVO-V-OIMS-4-IONDENSITY-12S-V1.0"), "TABLE", "a.tab",
        [AsSaid EXCEPT !.rows = "records"]),
   Case("mag", <<K("DATA_SET_ID", "VG2-N-MAG-4-RDR-HGCOORDS-V1.0"),
        K("STANDARD_DATA_PRODUCT_ID", "ASCII DATA")>>, "TABLE", "a.tab",
        Being(145)),
   Case("epd", <<K("DATA_SET_ID", "GO-E-EPD-4-SUMM-V1.0"),
        K("PRODUCT_ID", "E1_X")>>, "TIME_SERIES", "a.tab",
        [AsSaid EXCEPT !.stride = [by |-> "record", n |-> 0]]),
   Case("fine", In("VG2-SS-PLS-3-RDR-FINE-RES-V1.0"), "TABLE", "a.tab",
        Fix([by |-> "wrong", n |-> 57, right |-> 64], "label", "label", TRUE,
            "label")),
   [Case("hourly", In("VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"), "TABLE", "a.tab",
        [Being(57) EXCEPT !.cols = "last"])
        EXCEPT !.format = "VGR_PLS_HR_2017.FMT"],
   [Case("ions", <<K("DATA_SET_ID", "VG2-U-PLS-5-SUMM-IONBR-48SEC-V1.0"),
        K("PRODUCT_ID", "SUMRY.DAT")>>, "TIME_SERIES", "a.tab",
        [AsSaid EXCEPT !.cols = "sumry"]) EXCEPT !.format = "WRONG.FMT"],
   Case("chemistry", <<K("DATA_SET_ID", "PHX-M-MECA-2-NIEDR-V1.0"),
        K("PRODUCT_TYPE", "MECA-EM10")>>, "WCHEM_TABLE", "a.tab",
        [AsSaid EXCEPT !.cols = "numbered"]),
   Case("mola", In("MGS-M-MOLA-3-PEDR-L1A-V1.0"), "TABLE", "a.tab",
        [AsSaid EXCEPT !.rows = "size"]),
   Case("outages", <<K("INSTRUMENT_HOST_NAME", "LUNAR PROSPECTOR"),
        K("PRODUCT_ID", "OUTAGES")>>, "TABLE", "a.tab",
        [AsSaid EXCEPT !.cols = "six"]),
   Case("ice", In("ICE-C-ICEMAG-3-RDR-GZ-V1.0"), "TABLE", "TRAJ_ICE_1.tab",
        [AsSaid EXCEPT !.ends = FALSE]),
   Case("kaguya", In("SLN-L-SP-3-LEVEL2B2-V1.0"),
        "ANCILLARY_AND_SUPPLEMENT_DATA", "a.tab",
        [AsSaid EXCEPT !.cols = "fewer"])} \cup
  {Case("counts", In("GP-J-NMS-3-ENTRY-V1.0"), "TABLE", "a.tab",
        [AsSaid EXCEPT !.cols = "counts"]),
   Case("keeping", <<K("DATA_SET_ID", "GP-J-ASI-3-ENTRY-V1.0"),
        K("PRODUCT_ID", "HK01AD.TAB")>>, "TABLE", "a.tab",
        [AsSaid EXCEPT !.cols = "keeping"]),
   Case("pads", <<K("DATA_SET_ID", "GO-E-EPD-2-SAMP-PAD-V1.0"),
        K("PRODUCT_ID", "E1PAD_7.TAB")>>, "TIME_SERIES", "a.tab",
        [AsSaid EXCEPT !.cols = "shifted"]),
   Case("wind", In("MEX-SUN-ASPERA3-4-SWM-V1.0"), "TABLE", "a.tab",
        [AsSaid EXCEPT !.cols = "fourths"]),
   Case("ephemerides", <<K("INSTRUMENT_HOST_NAME", "MARS GLOBAL SURVEYOR"),
        K("INSTRUMENT_NAME", "RADIO SCIENCE SUBSYSTEM"),
        K("PRODUCT_TYPE", "ECS")>>, "TABLE", "a.tab",
        [AsSaid EXCEPT !.cols = "sixth"]),
   Case("layers", In("SLN-L-LMAG-5-1D-SIGMA-ECS-V1.0"), "TABLE", "a.tab",
        [Being(32) EXCEPT !.cols = "sigma", !.rows = "two"]),
   Case("field", In("SLN-L-LMAG-3-MAG-TS-V1.0"), "TABLE", "a.tab",
        [Being(129) EXCEPT !.cols = "field"])} \cup
  {Case("ducma", In(s), "TABLE", "a.tab", [AsSaid EXCEPT !.cols = "encounter"]) :
     s \in {"VEGA1-C-DUCMA-3-RDR-HALLEY-V1.0", "VEGA2-C-DUCMA-3-RDR-HALLEY-V1.0"}} \cup
  {Case("profiles", In(s), "TABLE", "a.tab", [AsSaid EXCEPT !.cols = "figures"]) :
     s \in {"MRO-M-MCS-4-RDR-V1.0", "MRO-M-MCS-2-EDR-V1.0"}} \cup
  \* files that are named after their labels, whatever the pointers say
  {Case("dust", In("CO-D-CDA-3/4/5-DUST-V1.0"), "TABLE", "p.TAB", AsSaid),
   Case("jitter", <<K("DATA_SET_ID", "VG2-SR/UR/NR-PPS-2/4-OCC-V1.0"),
        K("PRODUCT_TYPE", "JITTER")>>, "SERIES", "p.TAB", AsSaid)} \cup
  {Case("pfs", <<K("DATA_SET_ID", "MEX-M-PFS-2-EDR-NOMINAL-V1.0"),
        K("PRODUCT_ID", p)>> \o (IF n = "" THEN <<>> ELSE <<K("ORBIT_NUMBER", n)>>),
        "TABLE", "a.tab", IF n = "8945" THEN AsSaid
                          ELSE [AsSaid EXCEPT !.rows = "records"]) :
     p \in {"A_RAW_1", "A_HK_1"}, n \in {"N/A", "8944", "17", "8945"}} \cup
  {Case("wave", Pws \o <<K("PRODUCT_ID", p[1])>>, n, "a.tab", Being(p[2])) :
     p \in {<<"AB.TAB", 366>>, <<"AE.TAB", 516>>}, n \in {"TIME_SERIES", "TABLE"}} \cup
  {Case("occultations", <<K("DATA_SET_ID", s), K("PRODUCT_ID", "A_GEOM_1")>>,
        "SERIES", "a.tab", Short(2)) :
     s \in {"ESO1M-SR-APPH-4-OCC-V1.0", "ESO22M-SR-APPH-4-OCC-V1.0",
            "IRTF-SR-URAC-4-OCC-V1.0", "PAL200-SR-CIRC-4-OCC-V1.0",
            "MCD27M-SR-IIRAR-4-OCC-V1.0"}} \cup
  {Case("halley", In(s), "TABLE", "a.tab", [AsSaid EXCEPT !.ends = FALSE]) :
     s \in {"IHW-C-PPFLX-3-RDR-HALLEY-V1.0", "IHW-C-IRPHOT-3-RDR-HALLEY-V1.0",
            "IHW-C-MSNVIS-3-RDR-HALLEY-ORIONID-V1.0"}} \cup
  {Case("radar-meteors", In(s), "TABLE", "a.tab",
        [AsSaid EXCEPT !.ends = FALSE, !.cols = "nameless"]) :
     s \in {"IHW-C-MSNRDR-3-RDR-HALLEY-ORIONID-V1.0",
            "IHW-C-MSNRDR-3-RDR-HALLEY-ETA-AQUAR-V1.0"}} \cup
  {Case("hartley", <<K("DATA_SET_ID", "DIF-C-HRIV/MRI-5-HARTLEY2-SHAPE-V1.0"),
        K("PRODUCT_ID", "HARTLEY2-CARTESIAN-PLATE-MODEL")>>, n, "a.tab",
        [Being(79) EXCEPT !.start = "record"]) : n \in {"TABLE", "PLATE_TABLE"}}

Stride(how, label) ==
  CASE how.stride.by = "more" -> label.rowbytes + how.stride.n
    [] how.stride.by = "being" -> how.stride.n
    [] how.stride.by = "record" -> label.recordbytes
    [] how.stride.by = "wrong" -> IF label.rowbytes = how.stride.n
                                  THEN how.stride.right ELSE label.rowbytes
FixedRows(how, label, size) ==
  CASE how.rows = "label" -> label.rows
    [] how.rows = "records" -> label.records
    [] how.rows = "two" -> 2
    [] how.rows = "size" -> (size - label.start) \div label.rowbytes
FixedStart(how, label, size) ==
  CASE how.start = "record" -> 79 * (label.record - 1)
    [] how.start = "bottom" -> size - label.rows * Stride(how, label)
    [] OTHER -> label.start
Aero == <<"KNUDSEN FREESTR. HARD SPHERE NR. [=2.8351E-8/RHO]",
          "KNUDSEN NR. [=1.2533*SQRT(2)*Ma/Re]", "REYNOLD NR. [=RHO*VREL*D/Mu]">>
Column(c, how, i, n) ==
  CASE how.cols = "counts" /\ i = 2 /\ c.name = "COUNTS" -> [c EXCEPT !.bytes = 8]
    [] how.cols = "keeping" /\ i \in {2, 4, 6} ->
         [c EXCEPT !.bytes = IF i = 2 THEN 4 ELSE 2]
    [] how.cols = "shifted" /\ i <= 9 -> [c EXCEPT !.start = @ + 1]
    [] how.cols = "encounter" /\ i = 11 -> [c EXCEPT !.start = 62]
    [] how.cols = "sixth" /\ i = 6 -> [c EXCEPT !.start = 80]
    [] how.cols = "fourths" /\ i \in {3, 4} -> [c EXCEPT !.bytes = 12]
    [] how.cols = "numbered" /\ c.number = 13 -> [c EXCEPT !.start = @ - 1]
    [] how.cols = "numbered" /\ c.number = 14 -> [c EXCEPT !.start = @ - 2]
    [] how.cols = "nameless" /\ c.name = "" /\ c.start = 17 ->
         [c EXCEPT !.name = ">=1SEC"]
    [] how.cols = "nameless" /\ c.name = "" /\ c.start = 21 ->
         [c EXCEPT !.name = ">=8SEC"]
    [] how.cols = "aero" /\ i \in 6..8 -> [c EXCEPT !.name = Aero[i - 5]]
    [] how.cols = "last" /\ i = 9 -> [c EXCEPT !.bytes = 6]
    [] OTHER -> c
\* columns of tables whose labels know none
Col(start, bytes, name) ==
  [start |-> start, bytes |-> bytes, name |-> name, number |-> 0]
Sigma == <<Col(1, 8, "TOP_RADIUS"), Col(10, 8, "UNDER_RADIUS"),
           Col(19, 12, "ELECTRICAL_CONDUCTANCE")>>
Field == <<Col(1, 19, "TIME"), Col(21, 8, "X1"), Col(30, 8, "Y1"),
  Col(39, 8, "Z1"), Col(48, 7, "Bx1"), Col(56, 7, "By1"),
  Col(64, 7, "Bz1"), Col(72, 10, "X2"), Col(83, 10, "Y2"),
  Col(94, 10, "Z2"), Col(105, 7, "Bx2"), Col(113, 7, "By2"),
  Col(121, 7, "Bz2")>>
GivenColumns(how) == CASE how.cols = "sigma" -> Sigma [] how.cols = "field" -> Field
                       [] OTHER -> <<>>
FixedColumns(how, label) ==
  LET own == IF how.cols = "sumry" THEN label.others
             ELSE IF GivenColumns(how) # <<>> THEN GivenColumns(how)
             ELSE label.columns
      few == IF how.cols = "fewer" THEN SubSeq(own, 1, Len(own) - 4) ELSE own
  IN  [i \in 1..Len(few) |-> Column(few[i], how, i, Len(few))]
FixedTable(bytes, how, label) ==
  LET cols == FixedColumns(how, label)
      stride == Stride(how, label)
      start == FixedStart(how, label, Len(bytes))
  IN  [names |-> [j \in 1..Len(cols) |-> cols[j].name],
       rows |-> [i \in 1..FixedRows(how, label, Len(bytes)) |->
         [j \in 1..Len(cols) |->
            Trim(Cut(bytes, start + (i - 1) * stride + cols[j].start - 1,
                     cols[j].bytes))]]]

\* ------------------------------------------------------------------ images
Img(swapped, prefix) ==
  [kind |-> "image", swapped |-> swapped, prefix |-> prefix, item |-> 1,
   told |-> "UNSIGNED_INTEGER"]
ImageCases ==
  {Case("terrain", <<K("DATA_SET_ID", "WFF-E-ATM-1/5-V1.0"),
        K("PRODUCT_ID", p)>>, "IMAGE", "a.img", Img(p = "SEDAN2X2", TRUE)) :
     p \in {"SEDAN2X2", "BBMESA2X2"}} \cup
  {Case("camera", In("CO-CAL-ISS-2-V1.0"), "IMAGE", f, Img(FALSE, FALSE)) :
     f \in {"a.DA", "a.DAT"}} \cup
  {Case("camera", In("CO-CAL-ISS-2-V1.0") \o <<K("FILE_RECORDS", "1025")>>,
        "IMAGE", "a.img", Img(FALSE, FALSE)),
   Case("quality", In("IUE-C-SWP-3-EDR-IUECDB-V1.0"), "QUALITY_IMAGE",
        "a.img", Img(FALSE, TRUE)),
   Case("jovian-images", <<K("DATA_SET_ID", "JNO-J-JIRAM-3-RDR-V1.0"),
        K("PRODUCT_TYPE", "RDR")>>, "IMAGE", "a.img",
        [Img(FALSE, FALSE) EXCEPT !.item = 4, !.told = "IEEE_REAL"])} \cup
  {Case("lunar-camera", <<K("INSTRUMENT_ID", "LROC"), K("PRODUCT_TYPE", "EDR")>>,
        "IMAGE", t \o ".img", [Img(FALSE, TRUE) EXCEPT !.told = t]) :
     t \in {"LSB_INTEGER", "MSB_INTEGER"}} \cup
  {Case("anomaly", <<K("DATA_SET_ID", "MGN-V-RDRS-5-GVDR-V1.0"),
        K("PRODUCT_ID", "GVANF_1")>>, "IMAGE", "a.img",
        [Img(FALSE, TRUE) EXCEPT !.told = "N/A"])}
\* the elements, in order, of an image of unsigned bytes, or of little-endian
\* reals, whose bytes are given from the greatest to the least
Samples1(bytes, how, label) ==
  LET lines == IF how.swapped THEN label.samples ELSE label.lines
      samples == IF how.swapped THEN label.lines ELSE label.samples
      prefix == IF how.prefix THEN label.prefix ELSE 0
  IN  [shape |-> <<lines, samples>>,
       cells |-> Flat([i \in 1..lines |->
         LET line == Cut(bytes, label.start + (i - 1) *
                           (prefix + samples * how.item) + prefix,
                         samples * how.item)
         IN  IF how.item = 1 THEN line
             ELSE [j \in 1..samples |->
                    Rev(Cut(line, (j - 1) * how.item, how.item))]])]

\* ------------------------------------------------------------------- cells
\* tables whose columns hold binary numbers or several items, or are repeated
\* in a container, with a known mistake in what they are said to be: in their
\* types, in their place in rows, or in the table's place in its file
Packed(format, types, cols, place) ==
  [kind |-> "cells", format |-> format, types |-> types, cols |-> cols,
   place |-> place, owner |-> ""]
As(told, true) == [told |-> told, true |-> true]
Plainly == <<>>
Voyage(clock) == <<K("DATA_SET_ID", "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0")>> \o
  (IF clock = "" THEN <<>> ELSE <<K("SPACECRAFT_CLOCK_STOP_COUNT", clock)>>)
Waves == In("JNO-E/J/SS-WAV-3-CDR-BSTFULL-V1.0")
IssTypes == <<As("BIT_STRING", "MSB_BIT_STRING"), As("N/A", "VOID"),
  As("LSB_INTEGER", "MSB_INTEGER"),
  As("LSB_UNSIGNED_INTEGER", "MSB_UNSIGNED_INTEGER")>>
CellCases ==
  {Case("voyage", Voyage(k), "TABLE", "a.dat", Packed("BINARY", IssTypes, "label",
        IF k \in {"1359362956", "1360000000", "1363539029"} THEN "early" ELSE "records")) :
     k \in {"1359362955", "1359362956", "1360000000", "1363539029",
            "1363539030", "", "UNK", "N/A"}} \cup
  {Case("report", <<K("INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"),
        K("INSTRUMENT_ID", "REMS"), K("PRODUCT_ID", p)>>, "REMS_REPORT_TABLE",
        "a.dat", Packed("BINARY", Plainly, "label", "bytes")) :
     p \in {"RME_1HSDEF__1", "RME_1HSREG__1"}} \cup
  {Case("bistatic", In("CLEM1-L-RSS-5-BSR-V1.0"), "HEADER_TABLE", "a.dat",
        Packed("ASCII", Plainly, "label", "wrapped")),
   Case("waves", Waves, "DATA_TABLE", "a.dat",
        [Packed("BINARY", Plainly, "label", "label") EXCEPT !.owner = "TABLE"]),
   Case("waves", Waves, "FREQ_OFFSET_TABLE", "a.dat",
        [Packed("BINARY", Plainly, "label", "label")
         EXCEPT !.owner = "DATA_TABLE"])} \cup
  {Case("jovian-tables", <<K("DATA_SET_ID", "JNO-J-JIRAM-3-RDR-V1.0"),
        K("PRODUCT_TYPE", "RDR")>>, n, "a.dat",
        Packed("BINARY", <<As("IEEE_REAL", "PC_REAL")>>, "label", "label")) :
     n \in {"TABLE", "DATA_TABLE"}} \cup
  {Case("crater", <<K("DATA_SET_ID", "LRO-L-CRAT-2-EDR-RAWDATA-V1.0"),
        K("INSTRUMENT_ID", "CRAT"), K("PRODUCT_TYPE", "EDR")>>, n, "a.dat",
        Packed("BINARY", <<As("BIT_STRING", "MSB_BIT_STRING"),
          As("N/A", "MSB_UNSIGNED_INTEGER")>>, "label",
          IF n = "TABLE_1" THEN "64" ELSE "label")) : n \in {"TABLE_1", "TABLE_0"}} \cup
  {Case("nims", <<K("DATA_SET_ID", "GO-V-NIMS-2-EDR-V1.0"),
        K("SPACECRAFT_NAME", "GALILEO_ORBITER")>>, "TABLE", "a.dat",
        Packed("BINARY", <<As("BIT_STRING", "LSB_BIT_STRING"),
          As("N/A", "CHARACTER")>>, "label", "label")),
   Case("pulses", <<K("DATA_SET_ID", "ULY-J-EPAC-4-SUMM-PHA-24HR-V1.0"),
        K("PRODUCT_ID", "PHA_1.BIN")>>, "TABLE", "a.dat",
        Packed("BINARY", <<As("BIT_STRING", "MSB_BIT_STRING")>>, "label", "label")),
   Case("pressure", <<K("DATA_SET_ID", "ULY-J-EPAC-4-SUMM-PSTL-1HR-V1.0")>>,
        "TABLE", "a.tab", Packed("ASCII", Plainly, "thirteen", "label")),
   Case("sweeps", In("VG2-J-PRA-3-RDR-LOWBAND-6SEC-V1.0"), "TABLE", "a.tab",
        Packed("ASCII", Plainly, "channels", "label")),
   Case("tracking", <<K("INSTRUMENT_HOST_NAME", "MARS GLOBAL SURVEYOR"),
        K("INSTRUMENT_ID", "RSS"), K("PRODUCT_TYPE", "ODF")>>, "ODF3B_TABLE",
        "a.dat", Packed("BINARY", Plainly, "eighth", "label")),
   [Case("ovens", In("PHX-M-TEGA-4-SCRDR-V1.0"), "TIME_SERIES", "a.dat",
        Packed("BINARY", Plainly, "second", "label"))
        EXCEPT !.format = "TEGA_SCRDR.FMT"],
   Case("nuclides", In("SLN-L-GRS-5-NUCLIDE-MAP-V2.0"), "TABLE", "a.tab",
        [Packed("ASCII", Plainly, "label", "label") EXCEPT !.owner = "SPREADSHEET"]),
   Case("ramps", <<K("INSTRUMENT_HOST_NAME", "VENUS EXPRESS"),
        K("INSTRUMENT_ID", "VRA"), K("PRODUCT_ID", "A_1B_RMP_1")>>,
        "DOPPLER_SBAND_TABLE", "a.tab",
        [Packed("ASCII", Plainly, "label", "label") EXCEPT !.owner = "RAMP_TABLE"]),
   Case("keepers", <<K("INSTRUMENT_ID", "CHEMIN")>>, "CHMN_HSK_HEADER_TABLE",
        "a.dat", [Packed("BINARY", Plainly, "label", "0")
                  EXCEPT !.owner = "CHMN_HSKN_HEADER_TABLE"]),
   Case("opacity", In("PHX-M-SSI-5-ATMOS-OPACITY-V1.0"), "TABLE", "a.tab",
        Packed("ASCII", Plainly, "label", "bottom"))} \cup
  {Case("prefixes", In(s), "TABLE", "a.dat",
        Packed("BINARY", IssTypes, "label", "label")) :
     s \in {"CO-CAL-ISS-2-V1.0", "CO-S-ISSNA/ISSWA-2-EDR-V1.0"}} \cup
  {Case("sweeps", In(s), "TABLE", "a.tab",
        Packed("ASCII", Plainly, "sweeps", "label")) :
     s \in {"VG2-S-PRA-3-RDR-LOWBAND-6SEC-V1.0",
            "VG2-N-PRA-3-RDR-LOWBAND-6SEC-V1.0",
            "VG2-U-PRA-3-RDR-LOWBAND-6SEC-V1.0"}} \cup
  {Case("voltages", <<K("DATA_SET_ID", "PHX-M-MECA-4-NIRDR-V1.0"),
        K("PRODUCT_TYPE", t)>>, n, "a.tab",
        Packed("ASCII", Plainly, "label", "bytes")) :
     t \in {"MECA_WCL_CP", "MECA_WCL_CV"}, n \in {"TABLE", "CP_TABLE"}}

\* label: columns and group.columns of [name, start, bytes, type, items,
\* each]; group [start, bytes, reps, columns], after the columns; reps is 0
\* if there is none
TrueType(type, how) ==
  IF \E i \in 1..Len(how.types) : how.types[i].told = type
  THEN how.types[CHOOSE i \in 1..Len(how.types) : how.types[i].told = type].true
  ELSE type
TrueColumn(c, how, i) ==
  LET b == [c EXCEPT !.type = TrueType(c.type, how)] IN
  CASE how.cols = "thirteen" /\ i = 0 -> [b EXCEPT !.each = 13, !.start = 1]
    [] how.cols = "channels" /\ i = 0 /\ c.name = "STATUS_WORD" ->
         [b EXCEPT !.start = 1]
    [] how.cols = "channels" /\ i = 0 /\ c.name = "DATA_CHANNELS" ->
         [b EXCEPT !.start = 5]
    [] how.cols = "sweeps" /\ Has(c.name, "SWEEP") -> [b EXCEPT !.each = 4]
    [] how.cols = "eighth" /\ i = 8 -> [b EXCEPT !.bytes = 2]
    [] how.cols = "second" /\ i = 2 -> [b EXCEPT !.bytes = 8]
    [] how.cols = "second" /\ i > 2 -> [b EXCEPT !.start = @ + 4]
    [] OTHER -> b
\* each item of a column, past the first bytes of a row
Items(c, base) ==
  IF c.items = 0
  THEN <<[name |-> c.name, at |-> base + c.start - 1, bytes |-> c.bytes,
          type |-> c.type]>>
  ELSE [k \in 1..c.items |-> [name |-> c.name,
          at |-> base + c.start - 1 + (k - 1) * c.each, bytes |-> c.each,
          type |-> c.type]]
\* the columns of a group, over and over
Repeated(g, how) ==
  FlattenSeq([k \in 1..g.reps |-> FlattenSeq([i \in 1..Len(g.columns) |->
    Items(TrueColumn(g.columns[i], how, 0), g.start - 1 + (k - 1) * g.bytes)])])
Numbered(cells) ==
  [i \in 1..Len(cells) |->
    IF Cardinality({j \in 1..Len(cells) : cells[j].name = cells[i].name}) = 1
    THEN cells[i]
    ELSE [cells[i] EXCEPT !.name = @ \o "_" \o ToString(Cardinality(
           {j \in 1..(i - 1) : cells[j].name = cells[i].name}))]]
CellColumns(how, label) ==
  Numbered(FlattenSeq([i \in 1..Len(label.columns) |->
             Items(TrueColumn(label.columns[i], how, i), 0)])
           \o Repeated(label.group, how))
CellStart(how, label, size) ==
  CASE how.place = "64" -> 64
    [] how.place = "0" -> 0
    \* records are counted from one too high
    [] how.place = "early" -> (label.record - 2) * label.rowbytes
    [] how.place \in {"records", "wrapped"} ->
         (label.record - 1) * label.rowbytes
    [] how.place = "bottom" -> size - label.rows * label.rowbytes
    [] OTHER -> label.start
Signed(b) == (IF Head(b) > 127 THEN <<255, 255, 255, 255, 255, 255, 255, 255>>
              ELSE <<0, 0, 0, 0, 0, 0, 0, 0>>) \o b
Eight(b) == SubSeq(b, Len(b) - 7, Len(b))
Natural(b) == Eight(<<0, 0, 0, 0, 0, 0, 0, 0>> \o b)
CellOf(b, type) ==
  CASE type = "MSB_UNSIGNED_INTEGER" -> [k |-> "int", b |-> Natural(b)]
    [] type = "LSB_UNSIGNED_INTEGER" -> [k |-> "int", b |-> Natural(Rev(b))]
    [] type = "MSB_INTEGER" -> [k |-> "int", b |-> Eight(Signed(b))]
    [] type = "LSB_INTEGER" -> [k |-> "int", b |-> Eight(Signed(Rev(b)))]
    [] type = "IEEE_REAL" -> [k |-> "real", b |-> b]
    [] type = "PC_REAL" -> [k |-> "real", b |-> Rev(b)]
    [] OTHER -> [k |-> "text", b |-> Trim(b)]
CellTable(bytes, how, label) ==
  LET cols == CellColumns(how, label)
      start == CellStart(how, label, Len(bytes))
  IN  [names |-> [j \in 1..Len(cols) |-> cols[j].name],
       rows |-> [i \in 1..label.rows |-> [j \in 1..Len(cols) |->
         CellOf(Cut(bytes, start + (i - 1) * label.rowbytes + cols[j].at,
                    cols[j].bytes), cols[j].type)]]]

Cases == TextCases \cup FixedCases \cup ImageCases \cup CellCases
Object(c) == [name |-> c.name, ids |-> c.ids, file |-> c.file,
              format |-> c.format, suffixes |-> <<".tab">>,
              standard |-> "PDS3"]
=============================================================================
